"""
C36: the market analytics (price ladders, order book charts, liquidity maps) against what the book would really do.
A history of trades, deposits, withdrawals and faults drives the book; in between an analyst looks at it.
"""
import math
import random

from .core import HarnessError, h8
from .book import BookRun, Event, Gen, Oracle, snap, same_book, rows_of, close, Y, Z, PH, PL, DIS, TKN, PN
from .props_book import BookScenario, REAL, STUB, ASSUME
from . import refmodel as R
from carbon import CarbonPair
from carbon.simulators import sim_analytics as al


class ViewRun(BookRun):
    """a book with analysts: operation `ladder` asks for a series of trade sizes, `map` for a liquidity map"""

    def bind(self, ev):
        op = ev.op
        if op["op"] == "ladder":
            return self.ladder(ev)
        if op["op"] == "map":
            return self.map(ev)
        return super().bind(ev)

    def ladder(self, ev):
        op, sim = ev.op, ev.sim
        rp = R.RefPair(op["pair"])
        rng = random.Random(op["seed"])
        sold = rp.b if op["side"] == "ask" else rp.q
        elig = self.eligible(sim, op["pair"], sold, None)
        cap = sum(float(sim.orders[k].y) for k in elig)
        if op["side"] == "bid":         # sizes are always of the base token: roughly what empties the bids
            cap = sum(float(R.dx_for_dy(sim.orders[k].y, sim.orders[k].y_int, sim.orders[k].p_low, sim.orders[k].p_high,
                                        sim.orders[k].y) or 0) for k in elig)
        hi = (cap or 10) * op["top"]
        n = op["n"]
        if op["kind"] == "linspace0":
            sizes = al.linspace0(hi, n)
        elif op["kind"] == "linspace":
            sizes = al.linspace(hi / n, hi, n)
        elif op["kind"] == "tiny":      # starts with sizes too small to trade
            sizes = al.vec([hi * 10 ** (-16 + 16 * j / n) for j in range(n + 1)])
        else:
            sizes = al.vec(sorted(hi * rng.random() for _ in range(n)))
        cfg = self.p["config"]["sims"][ev.sx]
        how = op["how"]
        if cfg["pair"] != op["pair"] and how in ("default", "sim"):
            how = "pair"
        cp = CarbonPair(op["pair"])
        other = self.other
        a, kw = {"default": lambda: (al.Analytics(sim), {}),
                 "pair": lambda: (al.Analytics(sim), {"carbon_pair": cp}),
                 "sim": lambda: (al.Analytics(other), {"sim": sim}),
                 "both": lambda: (al.Analytics(other), {"sim": sim, "carbon_pair": cp}),
                 "nosim": lambda: (al.Analytics(), {"sim": sim, "carbon_pair": cp}),
                 "verbose": lambda: (al.Analytics(sim, verbose=True), {"carbon_pair": cp})}[how]()
        grid = None                     # the documented sizes: evenly spaced, the ends a little inside
        if op["kind"] in ("linspace0", "linspace"):
            grid = [hi * j / n for j in range(n + 1)] if op["kind"] == "linspace0" else [hi / n + (hi - hi / n) * j / (n - 1 or 1) for j in range(n)]
            if op["kind"] == "linspace0":
                grid[0], grid[-1] = 0.0001, hi * (1 - 0.00001)
        ev.args = {"grid_": grid, "probe": sorted(rng.sample(range(len(sizes)), min(len(sizes), 2))), "sizes": [float(x) for x in sizes], "rp": rp, "cp": cp, "how": how, "a": a, "kw": kw}
        what = {"ask": a.AMM_SELLS_BASETOKEN, "bid": a.AMM_BUYS_BASETOKEN}[op["side"]]
        if rng.random() < .5:
            what = {"ask": a.ASK, "bid": a.BID}[op["side"]]
        book = {"ask": a.ASK_BOOK, "bid": a.BID_BOOK}[op["side"]] if rng.random() < .5 else what
        pkw = {"sim": kw["sim"]} if "sim" in kw else {}
        if "carbon_pair" in kw or rng.random() < .5:
            pkw.update(pair=op["pair"], tkn=rp.b)

        def go():
            got = [a.simulate_trades(x, what, **kw) for x in sizes]
            pr = {j: a.effective_price(sizes[j], book, **pkw) for j in ev.args['probe']}
            ob = al.OrderBook(sizes, got, rp.b, rp.q, bidask=al.OrderBook.ASK if op["side"] == "ask" else al.OrderBook.BID)
            return {"success": True, "got": got, "prices": pr, "ob": ob, "sizes": sizes}
        return go

    def map(self, ev):
        op, sim = ev.op, ev.sim
        rng = random.Random(op["seed"])
        ps = []
        for o in sim.orders.values():
            if o.disabled or o.pair_name != op["pair"].replace("/", ""):
                continue
            f = float if o.tkn == R.RefPair(op["pair"]).q else (lambda x: 1 / float(x))
            ps += [f(o.p_high), f(o.p_low)]
        ps = ps or [1.0, 2.0]
        lo, hi = min(ps) * rng.uniform(.5, .95), max(ps) * rng.uniform(1.05, 2)
        if op["kind"] == "inside" and hi > lo:
            lo, hi = lo + (hi - lo) * .2, hi - (hi - lo) * .3
        if op["kind"] == "grid":        # bucket borders on the ends of the ranges
            grid = sorted({lo, hi} | set(rng.sample(ps, min(len(ps), op["n"]))))
        else:
            grid = [float(x) for x in al.linspace(lo, hi, op["n"] + 1)]
        cp = CarbonPair(op["pair"])
        ev.args = {"grid": grid, "cp": cp}
        return lambda: {"success": True, **al.calc_liquidity_approx(sim.state()["orderuis"], grid, cp, reverse=op["reverse"],
                                                                    purgezero=op["purge"])}

    def run(self):
        self.other = self.make_sim({"mm": "exact", "pair": "ETH/USDC", "raise": True, "verbose": False})
        self.other.add_strategy("ETH", 1e6, 1, 2, 1e6, 1e-3, 1e-4)
        self.decoy = snap(self.other)
        return super().run()


class ViewOracle(Oracle):
    def after(self, run, ev):
        kind = ev.op["op"]
        if kind not in ("ladder", "map"):
            return
        res = run.res
        d = same_book(ev.pre, ev.post)
        if d:
            return res.violate("a look at the book changed it", f"{kind}: {d}", ev.i)
        if any(r["exec"] for r in ev.rows):
            return res.violate("a look at the book changed it", f"{kind}: logged an executed trade {ev.rows[0]}", ev.i)
        d = same_book(run.decoy, snap(run.other))
        if d or run.other.numtrades and ev.args and "kw" in ev.args and "sim" in ev.args["kw"]:
            return res.violate("wrong book", f"{kind} on a given simulator used another one: {d or 'it was asked for quotes'}", ev.i)
        if ev.fired:
            res.stats["interrupted_views"] += 1
            return
        if ev.exc is not None:
            return res.violate("no view", f"{kind} {ev.op} raised {ev.exc!r}", ev.i)
        (self.ladder if kind == "ladder" else self.map)(run, ev)

    # ---- ladders
    def ladder(self, run, ev):
        res, op, sim = run.res, ev.op, ev.sim
        a, rp = ev.args, ev.args["rp"]
        got, prices, ob, sizes = (ev.res[k] for k in ("got", "prices", "ob", "sizes"))
        what = f"{op['side']} ladder of {rp.slash} ({run.mm(ev.sx)}, {a['how']})"
        if a["grid_"] and (len(a["grid_"]) != len(a["sizes"]) or any(not close(x, y, 1e-12, 0) for x, y in zip(a["sizes"], a["grid_"]))):
            return res.violate("wrong sizes", f"{what}: {op['kind']} gives {a['sizes']}, must be {a['grid_']}", ev.i)
        rng = random.Random(op["seed"] + 1)
        n = len(got)
        res.stats["points"] += n
        res.stats["fillable"] += sum(x is not None for x in got)
        if any(x is not None for x in got):
            res.nontrivial = True
        # what would a trader get?  executed on an equal book, for some of the sizes
        clean = not any(o.get("fault") for o in run.p["ops"][:ev.i])
        for j in a["probe"] if clean else []:
            ok, amt, pr = self.execute(run, ev, a["sizes"][j], rp)
            res.stats["executed_points"] += 1
            if ok != (got[j] is not None):
                return res.violate("wrong ladder", f"{what}: size {a['sizes'][j]!r} shows {got[j]!r}, trading it "
                                                   f"{'gives ' + repr(amt) if ok else 'fails'}", ev.i)
            if ok and not close(got[j], amt, 1e-12, 0):
                return res.violate("wrong ladder", f"{what}: size {a['sizes'][j]!r} shows {got[j]!r}, trading it gives {amt!r}", ev.i)
            if ok and not close(prices[j], pr, 1e-12, 0):
                return res.violate("wrong ladder", f"{what}: size {a['sizes'][j]!r} has effective price {prices[j]!r}, "
                                                   f"trading it {pr!r}", ev.i)
        for j in a["probe"] if not clean else [rng.randrange(n)]:
            x, g = a["sizes"][j], got[j]
            p = prices.get(j)
            ok, amt, pr = self.quote(run, sim, ev, x, rp, op)
            if ok != (g is not None) or ok and not (close(g, amt, 1e-12, 0) and (p is None or close(p, pr, 1e-12, 0))):
                return res.violate("wrong ladder", f"{what}: size {x!r} shows {g!r} at {p!r}, the book quotes "
                                                   f"{(amt, pr) if ok else 'a failure'}", ev.i)
        # more for more, at ever worse prices (best execution only; 1e-12 display rounding)
        pts = [(x, float(g)) for x, g in zip(a["sizes"], got) if g is not None]
        for (x1, g1), (x2, g2) in zip(pts, pts[1:]):
            if x2 > x1 and g2 < g1 - 1e-9 - 1e-9 * g1:
                if run.mm(ev.sx) == "exact":
                    return res.violate("wrong ladder", f"{what}: {x1!r} for {g1!r} but {x2!r} for only {g2!r}", ev.i)
        # the order book shows exactly the sizes that can be traded, each with its own amount
        self.book(run, ev, what, ob, pts)

    def book(self, run, ev, what, ob, pts):
        res, op = run.res, ev.op
        rp = ev.args["rp"]
        xs, ys = list(ob.src_amounts), list(ob.trg_amounts)
        if [(float(x), float(y)) for x, y in zip(xs, ys)] != pts or len(xs) != len(ys):
            return res.violate("wrong order book", f"{what}: order book holds {list(zip(xs, ys))}, the ladder is {pts}", ev.i)
        if not pts:
            return
        ask = op["side"] == "ask"
        words = (f"This is the {'ASK' if ask else 'BID'} book.", f"AMM {'sells' if ask else 'buys'} {rp.b} for {rp.q}.",
                 f"{rp.q} per {rp.b}.")
        if any(w not in ob.explain() for w in words):
            return res.violate("wrong order book", f"{what}: explained as {ob.explain()!r}", ev.i)
        rev = random.Random(op["seed"] + 2).random() < .5
        x = [p[0] for p in pts]
        y = [p[1] for p in pts]
        dx = [b - a for a, b in zip(x, x[1:])]
        dy = [b - a for a, b in zip(y, y[1:])]
        mid = [(a + b) / 2 for a, b in zip(x, x[1:])]

        def inv(v):
            return [(1 / q if q else math.inf) for q in v] if rev else v
        want = {"src": x, "trg": y, "size1": x, "price1_eff": inv([b / a for a, b in pts]), "size2": mid,
                "price2_marg": inv([b / a if a else math.nan for a, b in zip(dx, dy)])}
        d = dict(ob.data_tokenamount_chart())
        d.update(ob.data_price_chart(reverse=rev))
        for k, w in want.items():
            g = [float(v) for v in d[k]]
            if len(g) != len(w) or any(not (close(p, q, 1e-9, 0) or q != q or abs(q) == math.inf) for p, q in zip(g, w)):
                return res.violate("wrong order book", f"{what}: {k} is {g}, must be {w}", ev.i)
        units = {"src_unit": rp.b, "trg_unit": rp.q, "size_unit": rp.b,
                 "prices_unit": f"{rp.b} per {rp.q}" if rev else f"{rp.q} per {rp.b}", "ammm_buysell_src": "sells" if ask else "buys"}
        for k, w in units.items():
            if d[k] != w:
                return res.violate("wrong order book", f"{what}: {k} is {d[k]!r}, must be {w!r}", ev.i)
        if len(pts) > 2:
            # what the chart shows: liquidity per price step; its area is what is traded between the midpoints
            c = ob.data_orderbook_chart()
            liq, prc, dm = list(c["liquidity"]), list(c["prices"]), list(ob.dmarg_prices)
            mp = [b / a if a else math.nan for a, b in zip(dx, dy)]
            for j in range(len(mp) - 1):
                if mp[j] != mp[j] or mp[j + 1] != mp[j + 1]:
                    continue
                step = (mp[j + 1] - mp[j]) * (1 if ask else -1)
                if not close(prc[j], (mp[j] + mp[j + 1]) / 2, 1e-9, 0):
                    return res.violate("wrong order book", f"{what}: chart price {prc[j]!r}, must be {(mp[j] + mp[j + 1]) / 2!r}", ev.i)
                if abs(step) > 1e-6 * abs(mp[j]):
                    w = (dy[j] + dy[j + 1]) / 2 / step
                    if not close(liq[j], w, 1e-6, 0):
                        return res.violate("wrong order book", f"{what}: chart liquidity {liq[j]!r} at {prc[j]!r}, must be {w!r}", ev.i)

    @staticmethod
    def quote(run, sim, ev, size, rp, op):
        f = sim.amm_sells if op["side"] == "ask" else sim.amm_buys
        e = Event()
        e.op = {"op": "trade"}
        run.call(e, lambda: f(rp.b, size, execute=False, pair=rp.slash))
        if not e.ok:
            return False, None, None
        r = e.res
        t = [x for x in r["trades"].to_dict("records") if x["aggr"]][-1]
        return True, float(t["amt2"] if op["side"] == "ask" else t["amt1"]), float(t["price"])

    def execute(self, run, ev, size, rp):
        """replays the history on a fresh book and trades for real"""
        ops = [{k: v for k, v in o.items() if k != "fault"} for o in run.p["ops"][:ev.i]
               if o["op"] not in ("ladder", "map", "state", "liq") and o["sim"] == ev.sx]
        tw = BookRun({"config": run.p["config"], "ops": ops}, Oracle())
        tw.run()
        sim = tw.sims[ev.sx]
        d = same_book(ev.pre, snap(sim))
        if d and "id" not in d:
            raise HarnessError(f"replayed book differs: {d}")
        if d:
            raise HarnessError(f"replayed book has other ids: {d}")
        pre = snap(sim)
        have = set(sim.trades)
        e = Event()
        e.op = {"op": "trade"}
        f = sim.amm_sells if ev.op["side"] == "ask" else sim.amm_buys
        tw.call(e, lambda: f(rp.b, size, pair=rp.slash))
        rows = [r for r in rows_of(sim.trades, [u for u in sim.trades if u not in have]) if r["exec"]]
        if not e.ok or not rows:
            return False, None, None
        post = snap(sim)
        out = sum(float(R.D(pre[k][Y]) - R.D(post[k][Y])) for k in pre if k in post and pre[k][TKN] == (rp.b if ev.op["side"] == "ask" else rp.q)
                  and R.D(pre[k][Y]) > R.D(post[k][Y]))
        t = [x for x in rows if x["aggr"]][-1]
        moved = float(t["amt1"])
        if not close(out, moved, 1e-9, 1e-9):
            raise HarnessError(f"log and book disagree: {out} {moved}")
        return True, float(t["amt2"] if ev.op["side"] == "ask" else t["amt1"]), float(t["price"])

    # ---- liquidity maps
    def map(self, run, ev):
        res, op = run.res, ev.op
        grid = ev.args["grid"]
        rp = R.RefPair(op["pair"])
        r = ev.res
        what = f"liquidity map of {rp.slash} reverse={op['reverse']} over {grid}"
        want = {"bid": [], "ask": []}
        sure = {"bid": [], "ask": []}
        cond = {"bid": [], "ask": []}       # the reports carry floats: how much a bucket may be off
        once = {"bid": 0.0, "ask": 0.0}      # orders of a single price on an inner border: in one of the two buckets, not in both
        for p1, p2 in zip(grid, grid[1:]):
            tot = {"bid": 0.0, "ask": 0.0}
            off = {"bid": 0.0, "ask": 0.0}
            soft = {"bid": 0.0, "ask": 0.0}
            for v in ev.post.values():
                if v[DIS] or v[PN] != rp.b + rp.q:
                    continue
                f = float if v[TKN] == rp.q else (lambda x: 1 / float(x))
                a, b = sorted((f(v[PH]), f(v[PL])))
                s = "ask" if v[TKN] == rp.b else "bid"
                y = float(v[Y])
                if a == b:
                    share, p, e = (1.0 if p1 <= a < p2 else 0.0), a, 0.0
                    if min(abs(p1 - a), abs(p2 - a)) <= 1e-9 * a:
                        e = 1.0
                        if min(abs(grid[0] - a), abs(grid[-1] - a)) <= 1e-9 * a:
                            once[s] = None
                else:
                    c1, c2 = max(a, p1), min(b, p2)
                    share = max(0.0, c2 - c1) / (b - a)
                    p = math.sqrt(c1 * c2)
                    e = 1e-8 * b / (b - a)
                t = rp.q if op["reverse"] else rp.b
                m = 1.0 if v[TKN] == t else p if t == rp.q else 1 / p
                tot[s] += y * share * m
                off[s] += y * e * m
                soft[s] += y * (e if a != b else 0.0) * m
            for s in tot:
                sure[s].append(soft[s] / (p2 - p1))
                want[s].append(tot[s] / (p2 - p1))
                cond[s].append(off[s] / (p2 - p1))
        if len(r["prices"]) != len(grid) - 1 or any(not close(g, (p + q) / 2, 1e-12, 0) for g, p, q in zip(r["prices"], grid, grid[1:])):
            return res.violate("wrong liquidity map", f"{what}: prices {r['prices']}", ev.i)
        u = {"price_u": f"{rp.q} per {rp.b}", "liqtkn_u": rp.q if op["reverse"] else rp.b, "reverse": op["reverse"]}
        for k, w in u.items():
            if r[k] != w:
                return res.violate("wrong liquidity map", f"{what}: {k} is {r[k]!r}, must be {w!r}", ev.i)
        for s in ("bid", "ask"):
            if len(r[s]) != len(want[s]):
                return res.violate("wrong liquidity map", f"{what}: {len(r[s])} {s} buckets", ev.i)
            for j, (g, w, c) in enumerate(zip(r[s], want[s], cond[s])):
                if g is None and not op["purge"] or g == 0 and op["purge"]:
                    return res.violate("wrong liquidity map", f"{what}: {s} bucket {j} is {g!r} with purgezero={op['purge']}", ev.i)
                if not abs((g or 0) - w) <= 1e-9 * abs(w) + c + 1e-15:
                    return res.violate("wrong liquidity map", f"{what}: {s} bucket {j} is {g!r}, must be {w!r}", ev.i)
                if w > 0:
                    res.nontrivial = True
            if once[s] is not None and all(q - p > 1e-8 * q for p, q in zip(grid, grid[1:])):
                g, w, c = (sum((x or 0) * (q - p) for x, p, q in zip(xs, grid, grid[1:])) for xs in (r[s], want[s], sure[s]))
                if not abs(g - w) <= 1e-9 * abs(w) + c + 1e-15:
                    return res.violate("wrong liquidity map", f"{what}: the {s} buckets hold {g!r} together, must be {w!r}", ev.i)
        res.stats["buckets"] += 2 * len(grid) - 2


class C36(BookScenario):
    pid = "C36"
    oracle = ViewOracle
    runner = ViewRun
    fault_p = 0.2
    fault_ops = ("trade", "add", "ladder", "map")
    quick_runs = 110
    thorough_runs = 5000
    real = REAL + ["sim_analytics (Analytics, OrderBook)"]
    stub, assumptions = STUB, ASSUME
    gen = dict(nops=(5, 10), w={"trade": 10, "add": 3, "order": 1.5, "del": 1}, clients=3)
    rule = "distinct histories in which an analyst saw liquidity"

    def generate(self, rng, tier):
        p = self.program(rng, tier)
        self.look(rng, p, tier)
        if rng.random() < self.fault_p:
            self.inject(rng, p)
        return p

    def look(self, rng, p, tier):
        pairs = sorted({o["pair"] for o in p["ops"] if "pair" in o})
        ops = p["ops"]
        first = next((i for i, o in enumerate(ops) if o["op"] != "add"), len(ops))
        ladders = 0
        for _ in range(rng.randint(1, 4)):
            i = rng.randint(min(first, len(ops)), len(ops))
            pair = rng.choice(pairs)
            if rng.random() < .65 and ladders < 2:
                ladders += 1
                op = {"op": "ladder", "sim": 0, "pair": pair, "side": rng.choice(["ask", "bid"]), "seed": rng.randrange(1 << 30),
                      "kind": rng.choice(["linspace0", "linspace", "random", "tiny"]), "n": rng.choice([1, 2, 3, 3, 4] + [8] * (tier == "thorough")),
                      "top": rng.choice([.3, .9, 1.0, 1.3]),
                      "how": rng.choice(["default", "default", "pair", "sim", "sim", "both", "nosim", "verbose"])}
            else:
                op = {"op": "map", "sim": 0, "pair": pair, "seed": rng.randrange(1 << 30), "n": rng.choice([1, 2, 5, 20]),
                      "kind": rng.choice(["cover", "inside", "grid"]), "reverse": rng.random() < .5, "purge": rng.random() < .5}
            ops.insert(i, op)

    def execute(self, program):
        return ViewRun(program, self.oracle(), budget=self.budget).run()
