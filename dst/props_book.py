"""
Oracles and scenarios for the order-book properties C01 - C16.
Each oracle reports only violations of its own property.
"""
import collections
import copy
import math
import random
from decimal import Decimal

from .core import Scenario, Result, HarnessError, attempt, h8
from .book import (BookRun, Gen, Oracle, snap, Y, Z, PH, PL, DIS, TKN, PN, LINK, CID, OID, close, same_book,
                   apply_rows, diff_books, agg_row, routes, rows_of, sig, MIDS)
from .fault import pick_site, NullOut, EXC
from . import refmodel as R

REAL = ["CarbonSimulatorUI", "ExactRouterX0Y0N", "AlphaRouter", "FastRouter", "Order", "CarbonPair", "CarbonOrderUI"]
STUB = ["standard output (in-memory; breakable)"]
ASSUME = ["CPython/PyPy semantics of sys.settrace line events; Decimal power and square root are memoised (pure)",
          "amounts are rounded by the routers to 1e-12 by design: balances may undershoot zero by that rounding"]
FAULT_EXC = ("MemoryError", "KeyboardInterrupt", "RecursionError", "MemoryError", "KeyboardInterrupt", "SystemExit",
             "RuntimeError")


def dust(o):
    """ledger rounding of one fill of the order (1e-12 display rounding plus float resolution)"""
    return 2e-12 + 1e-14 * abs(float(o[Z]))


class BookScenario(Scenario):
    gen = {}
    fault_p = 0.2
    fault_ops = ("trade", "add", "order", "del")
    oracle = Oracle
    runner = BookRun
    real, stub, assumptions = REAL, STUB, ASSUME
    time_unit = "book operations"
    quick_runs = 240
    thorough_runs = 8000
    rule = ("distinct generated histories (sequence of operations, clients, sides, faults) that executed at least "
            "one trade")
    budget = None

    def program(self, rng, tier):
        kw = dict(self.gen)
        if tier == "thorough":
            lo, hi = kw.get("nops", (6, 14))
            kw["nops"] = (lo, hi + rng.choice([0, 0, 10, 30]))
        return Gen(rng, **kw).program()

    def generate(self, rng, tier):
        p = self.program(rng, tier)
        self.decorate(rng, p)
        if rng.random() < self.fault_p:
            self.inject(rng, p)
        return p

    def decorate(self, rng, p):
        pass

    def inject(self, rng, p):
        idx = [i for i, o in enumerate(p["ops"]) if o["op"] in self.fault_ops]
        if not idx:
            return
        # prefer an operation that does something late in the history
        i = idx[rng.randrange(len(idx))]
        op = p["ops"][i]
        if rng.random() < 0.15:
            for s in p["config"]["sims"]:
                s["verbose"] = True
            op["fault"] = {"kind": "stdout", "at": rng.randint(1, 4), "exc": rng.choice(("BrokenPipe", "OSError"))}
            return
        q = {"family": p["family"], "config": p["config"],
             "ops": [dict(o) for o in p["ops"][:i + 1]]}
        q["ops"][i]["record"] = True
        r = self.runner(q, Oracle())
        attempt(r.run)
        at = pick_site(rng, r.last.frame if r.last is not None and r.last.i == i else None)
        if at is None:
            return
        op["fault"] = {"kind": "line", "at": at, "exc": rng.choice(FAULT_EXC)}

    def execute(self, program):
        return BookRun(program, self.oracle(), budget=self.budget).run()

    def shrink_fields(self, op):
        for k in ("thr", "partial", "alias", "neg", "limit", "use", "execute", "quote_first", "cid", "hist", "record",
                  "marg_sell", "marg_buy", "yint_sell", "yint_buy", "marg", "yint"):
            if k in op:
                v = dict(op)
                del v[k]
                yield v
        if op.get("frac") and op["frac"] < 1:
            for f in (0.5, 0.1):
                if op["frac"] != f:
                    yield dict(op, frac=f)
        for k in ("amt_sell", "amt_buy", "amt"):
            if op.get(k) and op[k] not in (1, 10, 1000):
                for n in (1000, 10, 1):
                    yield dict(op, **{k: n})


# ------------------------------------------------------------------ C01
def given(op):
    """(token, balance) pairs a provider deposits with this operation"""
    rp = R.RefPair(op["pair"])
    if op["op"] == "order":
        return [(op["tkn"], R.D(op["amt"] or 0))]
    return [(op["tkn"], R.D(op["amt_sell"] or 0)), (rp.other(op["tkn"]), R.D(op["amt_buy"] or 0))]


class ConserveOracle(Oracle):
    def __init__(self):
        self.ledger = collections.defaultdict(lambda: collections.defaultdict(Decimal))   # sim -> token -> amount
        self.slack = collections.defaultdict(float)

    def totals(self, sim):
        t = collections.defaultdict(Decimal)
        for o in sim.orders.values():
            t[o.tkn] += R.D(o.y)
        return t

    def after(self, run, ev):
        res, op, led = run.res, ev.op, self.ledger[ev.sx]
        kind = op["op"]
        pre_t, post_t = collections.defaultdict(Decimal), collections.defaultdict(Decimal)
        for s, t in ((ev.pre, pre_t), (ev.post, post_t)):
            for v in s.values():
                t[v[TKN]] += R.D(v[Y])
        exec_rows = [r for r in ev.rows if r["exec"]]
        scale = max([1.0] + [float(v) for v in pre_t.values()])
        tol = 1e-11 + 1e-13 * scale
        if kind in ("add", "order"):
            if ev.ok:
                for t, a in given(op):
                    led[t] += a
            elif set(ev.post) - set(ev.pre) and ev.fired:
                for t, a in given(op):        # interrupted after it took effect
                    led[t] += a
        elif kind == "del":
            for k in set(ev.pre) - set(ev.post):
                led[ev.pre[k][TKN]] -= R.D(ev.pre[k][Y])
        elif kind == "trade" and exec_rows:
            a = agg_row(ev.rows)
            # what the trader was told: the returned table; else (interrupted) the log
            told = a
            if ev.ok and isinstance(ev.res, dict):
                df = ev.res["trades"]
                rec = [r for r in df.to_dict("records") if r["aggr"]]
                if len(rec) != 1:
                    res.violate("no-receipt", f"trade reported {len(rec)} aggregate rows", ev.i)
                    return
                told = rec[0]
            if told is not None:
                led[told["tkn1"]] -= R.D(float(told["amt1"]))
                led[told["tkn2"]] += R.D(float(told["amt2"]))
                if told["tkn1"] != ev.sold or told["tkn2"] != ev.bought:
                    res.violate("wrong-token", f"trade of {ev.sold} for {ev.bought} was settled as {told['tkn1']} for "
                                               f"{told['tkn2']}", ev.i)
            want = apply_rows(ev.pre, ev.rows)
            if isinstance(want, str):
                res.violate("fill-mismatch", want, ev.i)
                return
            d = diff_books(want, ev.post)
            if d:
                res.violate("fill-mismatch", f"after a trade the book does not reflect its fills: {d}", ev.i)
                return
        elif kind in ("trade", "state", "liq", "bad") and not ev.executed:
            d = same_book(ev.pre, ev.post)
            if d and kind != "bad":
                res.violate("untraded-change", f"{kind} that traded nothing changed the book: {d}", ev.i)
                return
        for t in set(post_t) | set(led):
            if abs(float(post_t[t] - led[t])) > tol * (1 + ev.i):
                res.violate("not-conserved", f"{t}: the book holds {float(post_t[t])!r} but deposits, withdrawals and "
                                             f"settled trades add up to {float(led[t])!r}", ev.i)
                return
        # linked pairs of untouched strategies
        if kind in ("add", "order", "del"):
            for k in set(ev.pre) & set(ev.post):
                if ev.pre[k] != ev.post[k]:
                    res.violate("bystander", f"{kind} changed bystander order {k}", ev.i)
                    return


class C01(BookScenario):
    pid = "C01"
    oracle = ConserveOracle
    gen = dict(nops=(8, 18))
    fault_p = 0.15


# ------------------------------------------------------------------ C02
def integrity(book):
    """every order is linked mutually to an existing order"""
    for k, v in book.items():
        l = v[LINK]
        if l not in book:
            return f"order {k} is linked to {l}, which does not exist"
        if book[l][LINK] != k:
            return f"order {k} is linked to {l}, which is linked to {book[l][LINK]}"
        if v[OID] != k:
            return f"order stored as {k} has id {v[OID]}"
    return None


class AtomicOracle(Oracle):
    def __init__(self):
        self.logs = {}

    def after(self, run, ev):
        res, op = run.res, ev.op
        kind = op["op"]
        same = same_book(ev.pre, ev.post)
        nolog = not ev.new_uids and not ev.gone_uids and ev.post_num == ev.pre_num
        unchanged = same is None and nolog
        if ev.gone_uids:
            res.violate("log-lost", f"log entries {ev.gone_uids} vanished", ev.i)
            return
        interrupted = ev.fired is not None
        reported_failure = isinstance(ev.res, dict) and ev.res.get("success") is False
        raised = ev.exc is not None
        if (reported_failure or (raised and not interrupted)) and not unchanged:
            why = ev.exc if raised else ev.res["error"]
            res.violate("failed-but-changed",
                        f"{kind} failed ({type(why).__name__}: {str(why)[:80]}{', fault at ' + str(ev.fired) if interrupted else ''}) "
                        f"but left effects: {same or 'log ' + str(ev.new_uids) + ' numtrades ' + str(ev.pre_num) + '->' + str(ev.post_num)}",
                        ev.i)
            return
        if unchanged:
            if kind in ("add", "order", "trade") and not raised and not reported_failure and ev.ok:
                res.violate("ok-but-nothing", f"{kind} reported success but left no trace", ev.i)
            return
        # it took effect: it must be complete
        where = f" (fault at {ev.fired})" if interrupted else ""
        if kind == "trade":
            d = self.complete_trade(ev)
        elif kind in ("add", "order"):
            new = set(ev.post) - set(ev.pre)
            d = None
            if len(new) != 2 or set(ev.pre) - set(ev.post):
                d = f"orders {sorted(set(ev.post) ^ set(ev.pre))} appeared or vanished"
            elif any(ev.pre[k] != ev.post[k] for k in ev.pre):
                d = "another order changed"
            d = d or (None if nolog else "log changed")
        elif kind == "del":
            gone = set(ev.pre) - set(ev.post)
            want = {ev.del_id, ev.pre[ev.del_id][LINK]} if ev.del_id in ev.pre else set()
            d = None
            if gone != want or set(ev.post) - set(ev.pre):
                d = f"removed orders {sorted(gone)}, expected {sorted(want)}"
            d = d or (None if nolog else "log changed")
        else:
            d = None if (same is None) else f"{kind} changed the book: {same}"
        d = d or integrity(ev.post)
        if d:
            res.violate("incomplete", f"{kind} took effect only in part{where}: {d}", ev.i)

    @staticmethod
    def complete_trade(ev):
        a = agg_row(ev.rows)
        if a is None:
            return f"log has rows {ev.new_uids} without one aggregate"
        if ev.post_num != ev.pre_num + 1:
            return f"trade counter {ev.pre_num} -> {ev.post_num} (log rows {ev.new_uids})"
        rr = routes(ev.rows)
        if len(rr) != a["nroutes"]:
            return f"aggregate states {a['nroutes']} fills, log has {len(rr)}"
        for f in ("amt1", "amt2"):
            if not close(sum(float(r[f]) for r in rr), a[f], 1e-9, 1e-10):
                return f"fills add up to {sum(float(r[f]) for r in rr)}, aggregate says {a[f]}"
        want = apply_rows(ev.pre, ev.rows)
        if isinstance(want, str):
            return want
        return diff_books(want, ev.post)


class C02(BookScenario):
    pid = "C02"
    oracle = AtomicOracle
    level = "exploration"
    fault_p = 1.0
    quick_runs = 600
    thorough_runs = 20000
    gen = dict(nops=(2, 7), setup=(1, 4), w={"trade": 8, "add": 4, "order": 1, "del": 3, "bad": 2}, verbose_p=0.3)
    rule = "distinct histories with an injected fault at a source-line (or output) ordinal inside an operation"

    def decorate(self, rng, p):
        for op in p["ops"]:
            if op["op"] == "trade" and rng.random() < 0.7:
                op.pop("execute", None)
                op.pop("limit", None)
                op["frac"] = sig(min(op["frac"], 0.9), 5)


# ------------------------------------------------------------------ C03
def anon(book):
    """book without ids: list in insertion order, links as positions"""
    pos = {k: i for i, k in enumerate(book)}
    return [(v[Y], v[Z], v[PH], v[PL], v[DIS], v[TKN], v[PN], pos.get(v[LINK]), v[CID]) for v in book.values()]


def first_anon_diff(a, b):
    if len(a) != len(b):
        return f"{len(a)} orders versus {len(b)}"
    names = "balance capacity p_high p_low disabled token pair link cid".split()
    for i, (x, y) in enumerate(zip(a, b)):
        for n, u, v in zip(names, x, y):
            if u != v:
                return f"order #{i}: {n} {str(u)[:30]} versus {str(v)[:30]}"
    return None


def outcome(ev):
    """what the client saw, comparable across simulators"""
    if ev.exc is not None:
        return ("raised", type(ev.exc).__name__, str(ev.exc)[:200])
    if isinstance(ev.res, dict) and ev.res.get("success") is False:
        return ("failed", str(ev.res.get("error"))[:200])
    if ev.op["op"] == "trade":
        return ("ok", [(r["aggr"], r["exec"], str(r["amt1"]), str(r["amt2"]), r["tkn1"], r["tkn2"], str(r["price"]),
                        r["nroutes"], r["limitfail"]) for r in ev.rows])
    return ("ok",)


class Twin:
    """a second simulator that only receives the operations that count"""

    def __init__(self, run, sx):
        self.run = BookRun({"config": run.p["config"], "ops": []}, Oracle())
        self.sx = sx
        self.sim = self.run.sims[sx]

    def apply(self, op, i):
        from .book import Event
        ev = Event()
        ev.i, ev.op, ev.sx, ev.sim = i, {k: v for k, v in op.items() if k != "fault"}, self.sx, self.sim
        ev.pre = snap(self.sim)
        ev.pre_uids = list(self.sim.trades)
        ev.pre_num = self.sim.numtrades
        fn = self.run.bind(ev)
        self.run.call(ev, fn)
        ev.post = snap(self.sim)
        pu = set(ev.pre_uids)
        ev.new_uids = [u for u in self.sim.trades if u not in pu]
        ev.rows = rows_of(self.sim.trades, ev.new_uids)
        return ev


class QuoteOracle(Oracle):
    def __init__(self):
        self.twins = {}
        self.off = set()

    def before(self, run, ev):
        if ev.sx not in self.twins:
            self.twins[ev.sx] = Twin(run, ev.sx)

    def after(self, run, ev):
        res, op = run.res, ev.op
        kind = op["op"]
        if ev.sx in self.off:
            return
        counts = kind in ("add", "order", "del") and same_book(ev.pre, ev.post) is not None
        if ev.fired and counts:
            self.off.add(ev.sx)         # an interrupted step: the twin cannot know how far it got
            res.stats["twin_ended"] += 1
            return
        if kind == "trade":
            counts = ev.executed
            if not counts:
                d = same_book(ev.pre, ev.post)
                if d:
                    res.violate("mark", f"a {'quote' if op.get('execute') is False else 'refused trade'} changed the "
                                        f"book: {d}", ev.i)
                    return
                if any(r["exec"] for r in ev.rows):
                    res.violate("mark", "a quote was logged as executed", ev.i)
                    return
            if op.get("execute") is False and ev.executed:
                res.violate("quote-executed", "a quote was executed", ev.i)
                return
            q = ev.quote
            if q is not None:
                qs = [(r["amt1"], r["amt2"], r["price"], r["routeix"], r["nroutes"]) for r in q["trades"].to_dict("records")] \
                    if q.get("success") else None
                if ev.ok:
                    es = [(r["amt1"], r["amt2"], r["price"], r["routeix"], r["nroutes"]) for r in ev.rows]
                    if qs != es:
                        res.violate("quote-not-firm", f"quoted {qs}, got {es}", ev.i)
                        return
                elif qs is not None:
                    res.violate("quote-not-firm", f"quoted {qs} but the trade failed: {outcome(ev)}", ev.i)
                    return
        if counts and not ev.fired:
            op2 = {k: v for k, v in op.items() if k != "quote_first"}
            t = self.twins[ev.sx].apply(op2, ev.i)
            d = first_anon_diff(anon(ev.post), anon(t.post))
            if d:
                res.violate("history-matters", f"the book differs from one where no quotes or refused trades were made: "
                                               f"{d}", ev.i)
                return
            if kind == "trade" and outcome(ev) != outcome(t):
                res.violate("history-matters", f"outcome {outcome(ev)} differs from {outcome(t)} of a book where no quotes "
                                               f"or refused trades were made", ev.i)


class C03(BookScenario):
    pid = "C03"
    oracle = QuoteOracle
    fault_p = 0.0
    quick_runs = 200
    gen = dict(nops=(6, 14))

    def decorate(self, rng, p):
        for op in p["ops"]:
            if op["op"] == "trade":
                x = rng.random()
                if x < 0.3:
                    op["execute"] = False
                elif x < 0.6:
                    op["quote_first"] = True
                    op.pop("limit", None)
                elif x < 0.75 and "limit" not in op:
                    op["limit"] = {"kind": rng.choice(("price", "amt")), "rel": rng.choice((-0.3, -0.01))}


# ------------------------------------------------------------------ C04
class LimitOracle(Oracle):
    def after(self, run, ev):
        op, res = ev.op, run.res
        if op["op"] != "trade":
            return
        if ev.limit_price is None and ev.limit_amt is None:
            return
        res.stats["limited"] += 1
        a = agg_row(ev.rows)
        executed = ev.executed
        moved = same_book(ev.pre, ev.post) is not None
        rp = ev.pair
        # limit as a ratio paid/received seen by the trader: must not exceed
        if ev.limit_price is not None:
            lim = ev.limit_price if ev.sold == rp.b else 1 / ev.limit_price
        else:
            lim = ev.limit_amt / float(ev.amt) if ev.by_target else float(ev.amt) / ev.limit_amt

        def slack(a1, a2):
            return 1e-9 + 1e-12 / max(a1, 1e-300) + 1e-12 / max(a2, 1e-300)
        if moved:
            # what actually moved in the book
            da = sum(float(ev.pre[k][Y] - ev.post[k][Y]) for k in ev.pre if k in ev.post and ev.pre[k][TKN] == ev.sold)
            db = sum(float(ev.post[k][Y] - ev.pre[k][Y]) for k in ev.pre if k in ev.post and ev.pre[k][TKN] == ev.bought)
            if da > 0 and db >= 0:
                res.nontrivial = True
                if db / da > lim * (1 + slack(da, db)) :
                    res.violate("worse-than-limit", f"trader paid {db} {ev.bought} for {da} {ev.sold}, i.e. {db / da!r} per "
                                                    f"unit, limit {lim!r}", ev.i)
                    return
        if ev.ok and a is not None:
            if moved != bool(executed):
                res.violate("limit-flag", f"executed={executed} but the book {'changed' if moved else 'did not change'}", ev.i)
                return
            if executed and a["limitfail"]:
                res.violate("limit-flag", "trade executed but reported as limit failure", ev.i)
                return
            q = ev.quote
            if q is not None and q.get("success"):
                qa = [r for r in q["trades"].to_dict("records") if r["aggr"]][0]
                a1, a2 = float(qa["amt1"]), float(qa["amt2"])
                if a1 > 0 and a2 > 0:
                    m = 1e-6 + slack(a1, a2)
                    price = a2 / a1
                    if price < lim * (1 - m) and (a["limitfail"] or (op.get("execute", True) and not executed)):
                        res.violate("limit-met-but-refused", f"quote {price!r} is within the limit {lim!r} but the trade was "
                                                             f"not executed", ev.i)
                    elif price > lim * (1 + m) and (executed or not a["limitfail"]):
                        res.violate("limit-missed-but-accepted", f"quote {price!r} misses the limit {lim!r} but no limit "
                                                                 f"failure was reported", ev.i)
        elif not ev.ok and ev.quote is not None and ev.quote.get("success") and not ev.fired:
            res.violate("limit-error", f"the quote succeeds but with a limit the request fails: {outcome(ev)}", ev.i)


class C04(BookScenario):
    pid = "C04"
    oracle = LimitOracle
    fault_p = 0.0
    gen = dict(nops=(6, 14), w={"trade": 12, "add": 2, "del": 0.5})

    def decorate(self, rng, p):
        for op in p["ops"]:
            if op["op"] == "trade" and rng.random() < 0.75:
                op["limit"] = {"kind": rng.choice(("price", "amt")),
                               "rel": rng.choice((-0.5, -0.05, -1e-2, -1e-4, 1e-4, 1e-2, 0.05, 0.5))}
                if rng.random() < 0.75:
                    op["quote_first"] = True


# ------------------------------------------------------------------ C05
class SolvencyOracle(Oracle):
    def __init__(self):
        self.fills = collections.Counter()

    def after(self, run, ev):
        res, op = run.res, ev.op
        mm = run.mm(ev.sx)
        for r in ev.rows or ():
            if r["exec"] and not r["aggr"]:
                self.fills[ev.sx, r["routeix"]] += 1
        for k, v in ev.post.items():
            n = 1 + self.fills[ev.sx, k]
            if float(v[Y]) < -dust(v) * n:
                res.violate("negative", f"order {k} holds {float(v[Y])!r} {v[TKN]} after {op['op']}", ev.i)
                return
            if float(v[Y]) > float(v[Z]) + dust(v):
                res.violate("over-capacity", f"order {k} holds {float(v[Y])!r} {v[TKN]}, capacity {float(v[Z])!r}", ev.i)
                return
            if k in ev.pre and float(v[Z]) < float(ev.pre[k][Z]) - dust(v):
                res.violate("capacity-shrunk", f"capacity of order {k} fell from {ev.pre[k][Z]} to {v[Z]}", ev.i)
                return
        if op["op"] != "trade" or ev.fired:
            return
        curves, cy, cx = ev.ref
        req = float(ev.amt)
        cap = cy if ev.by_target else cx
        live = [c for c in curves]
        # the other side of the ledger: rounding of a dust price
        pmax = max([1.0] + [1 / float(c[2]) for c in live] + [float(c[3]) for c in live])
        tol = 1e-9 * req + 1e-11 * (1 + len(live)) * pmax
        if ev.ok:
            a = agg_row(ev.rows)
            if a is None:
                res.violate("no-aggregate", "successful trade without aggregate", ev.i)
                return
            got = float(a["amt1"] if ev.by_target else a["amt2"])
            if got > req + tol:
                res.violate("over-delivery", f"requested {req!r}, traded {got!r}", ev.i)
                return
            if op.get("partial"):
                if got > cap * (1 + 1e-9) + tol:
                    res.violate("beyond-liquidity", f"partial trade of {got!r} with liquidity {cap!r}", ev.i)
                elif mm in ("exact", "fast") and got < min(req, cap) * (1 - 1e-6) - tol:
                    res.violate("under-delivery", f"partial trade of {got!r}; requested {req!r}, liquidity {cap!r}", ev.i)
            else:
                if got < req - tol:
                    res.violate("under-delivery", f"requested {req!r}, traded {got!r} without partial fulfilment", ev.i)
                elif req > cap * (1 + 1e-6) + tol:
                    res.violate("insufficient-accepted", f"requested {req!r} with liquidity {cap!r}, traded {got!r}", ev.i)
        elif mm in ("exact", "fast") and live and 0 < req <= cap * 0.999:
            other = R.optimal(curves, dy=req) if ev.by_target else R.optimal(curves, dx=req)
            smallest = min(float(c[0]) for c in live)
            if other and min(req, other) > 1e-6 * max(1.0, 1e-6 * max(cy, cx)) and smallest > 1e-9:
                res.violate("liquid-refused", f"{mm} refused {req!r} although liquidity is {cap!r}: {outcome(ev)}", ev.i)


class C05(BookScenario):
    pid = "C05"
    oracle = SolvencyOracle
    fault_p = 0.1
    gen = dict(nops=(8, 18), w={"trade": 12, "add": 2, "del": 0.5, "bad": 0.7})


# ------------------------------------------------------------------ C06
class PriceOracle(Oracle):
    def after(self, run, ev):
        op, res = ev.op, run.res
        if op["op"] != "trade" or not ev.rows:
            return
        rp = ev.pair
        for r in routes(ev.rows):
            k = r["routeix"]
            o = ev.pre.get(k)
            if o is None:
                return
            a1, a2 = float(r["amt1"]), float(r["amt2"])
            if a1 <= 0:
                if a2 > 1.5e-12 * (1 + 1 / float(o[PL])):
                    res.violate("off-curve", f"order {k} received {a2!r} for nothing", ev.i)
                continue
            y = max(float(o[Y]), a1)
            want = R.dx_for_dy(y if y > float(o[Y]) else o[Y], o[Z], o[PL], o[PH], a1)
            if want is None:
                continue
            want = float(want)
            pworst = 1 / float(o[PL])
            if abs(a2 - want) > 1e-9 * want + 1.5e-12 * (1 + pworst):
                res.violate("off-curve", f"order {k} sold {a1!r} {o[TKN]} (holding {float(o[Y])!r} of {float(o[Z])!r}, range "
                                         f"{float(o[PL])!r}..{float(o[PH])!r}) for {a2!r}; its curve says {want!r}", ev.i)
                return
        a = agg_row(ev.rows)
        if a is None:
            return
        for f in ("amt1", "amt2"):
            tot = sum(float(r[f]) for r in routes(ev.rows))
            if not close(tot, a[f], 1e-9, 1e-11 * (1 + len(ev.rows))):
                res.violate("total", f"fills add up to {tot!r}, the trade reports {a[f]!r}", ev.i)
                return
        a1, a2 = float(a["amt1"]), float(a["amt2"])
        if a1 > 0 and a2 > 0:
            p = a2 / a1 if ev.sold == rp.b else a1 / a2
            rel = 1e-9 + 2e-12 / a1 + 2e-12 / a2
            if abs(float(a["price"]) / p - 1) > rel:
                res.violate("price", f"reported price {a['price']!r}, amounts say {p!r} {rp.q} per {rp.b}", ev.i)
                return
            if a["p_unit"] != f"{rp.q} per {rp.b}":
                res.violate("price", f"price unit {a['p_unit']} for pair {rp.slash}", ev.i)


class C06(BookScenario):
    pid = "C06"
    oracle = PriceOracle
    fault_p = 0.05
    gen = dict(nops=(8, 16), marg_p=0.3, yint_p=0.25, usd=(-1.0, 5.5))


# ------------------------------------------------------------------ C07
class ValueOracle(Oracle):
    """value of every strategy at the common reference price never falls"""

    def __init__(self):
        self.traders = collections.defaultdict(float)

    @staticmethod
    def mid(pair_iso, tkn):
        for s, m in MIDS.items():
            if s.replace("/", "") == pair_iso:
                b, q = s.split("/")
                return m if tkn == b else 1.0
        raise HarnessError(pair_iso)

    def values(self, book):
        out = {}
        for k, v in book.items():
            key = min(k, v[LINK])
            out[key] = out.get(key, 0.0) + float(v[Y]) * self.mid(v[PN], v[TKN])
        return out

    def after(self, run, ev):
        op, res = ev.op, run.res
        if op["op"] != "trade" and not ev.fired:
            return
        a, b = self.values(ev.pre), self.values(ev.post)
        if op["op"] == "trade":
            for k in a:
                if k in b:
                    m = max(1.0, MIDS[op["pair"]], 1 / MIDS[op["pair"]])
                    tol = 1e-10 * max(a[k], b[k]) + 1e-10 * m
                    if b[k] < a[k] - tol:
                        res.violate("value-extracted", f"strategy {k}: value at the reference price fell from {a[k]!r} to "
                                                       f"{b[k]!r} in one trade", ev.i)
                        return
            r = agg_row(ev.rows)
            if r is not None and ev.executed:
                rp = ev.pair
                m = MIDS[op["pair"]]
                usdq = m if r["tkn1"] == rp.b else 1.0
                usdp = m if r["tkn2"] == rp.b else 1.0
                gain = float(r["amt1"]) * usdq - float(r["amt2"]) * usdp
                self.traders[op["pair"]] += gain
                tol = 1e-9 * (abs(float(r["amt1"]) * usdq) + 1)
                if gain > tol:
                    res.violate("free-lunch", f"trader gained {gain!r} {rp.q} at the reference price in one trade", ev.i)
                    return
                if self.traders[op["pair"]] > 1e-7:
                    res.violate("free-lunch", f"traders are jointly {self.traders[op['pair']]!r} up", ev.i)


class C07(BookScenario):
    pid = "C07"
    quick_runs = 180
    oracle = ValueOracle
    fault_p = 0.1
    gen = dict(nops=(10, 22), common_mid=True, w={"trade": 14, "add": 1, "del": 0.3},
               pairs=[["ETH/USDC"], ["WBTC/USDC"], ["LINK/ETH"], ["USDC/USDT"], ["ETH/USDC", "WBTC/USDC"], ["WBTC/ETH"]])


# ------------------------------------------------------------------ C08
class DeleteOracle(Oracle):
    def __init__(self):
        self.dead = collections.defaultdict(set)

    def after(self, run, ev):
        op, res = ev.op, run.res
        kind = op["op"]
        d = integrity(ev.post)
        if d and kind in ("del", "trade") and not ev.fired:
            res.violate("dangling", f"after {kind}: {d}", ev.i)
            return
        if kind == "trade":
            for r in ev.rows:
                if not r["aggr"] and r["routeix"] in self.dead[ev.sx]:
                    res.violate("dead-order-traded", f"trade used deleted order {r['routeix']}", ev.i)
                    return
        gone = set(ev.pre) - set(ev.post)
        if gone and kind != "del":
            res.violate("vanished", f"{kind} removed orders {sorted(gone)}", ev.i)
            return
        back = set(ev.post) & self.dead[ev.sx]
        if back:
            res.violate("resurrected", f"deleted orders {sorted(back)} are back after {kind}", ev.i)
            return
        if kind != "del":
            return
        self.dead[ev.sx] |= gone
        if ev.fired or ev.exc is not None:
            return
        if ev.del_id in ev.pre:
            want = {ev.del_id, ev.pre[ev.del_id][LINK]}
        else:
            want = set()
        if gone != want:
            res.violate("wrong-set", f"deleting {ev.del_id} removed {sorted(gone)}, expected {sorted(want)}", ev.i)
            return
        if not isinstance(ev.res, list) or set(ev.res) != want or len(ev.res) != len(want):
            res.violate("wrong-report", f"deleting {ev.del_id} reported {ev.res}, expected {sorted(want)}", ev.i)
            return
        for k in ev.post:
            if ev.pre[k] != ev.post[k]:
                res.violate("bystander", f"deleting {ev.del_id} changed order {k}", ev.i)
                return
        if list(ev.post) != [k for k in ev.pre if k not in want]:
            res.violate("bystander", "deletion reordered the book", ev.i)
            return
        if want:
            res.nontrivial = True
            self.differential(run, ev)

    def differential(self, run, ev):
        """a quote on a pristine simulator holding copies of the remaining orders gives the same answer"""
        if not ev.post:
            return
        c = run.p["config"]["sims"][ev.sx]
        clone = BookRun.make_sim(c)
        for k, o in ev.sim.orders.items():
            clone.orders[k] = copy.copy(o)
        import sys
        pairs = sorted({(o.pair.slashpair, o.tkn) for o in ev.sim.orders.values()})
        for slash, tkn in pairs[:4]:
            tot = sum(float(o.y) for o in ev.sim.orders.values() if o.tkn == tkn and o.pair.slashpair == slash)
            if tot <= 1e-6:
                continue
            outs = []
            for s in (ev.sim, clone):
                so = sys.stdout
                sys.stdout = NullOut()
                n = len(s.trades)
                try:
                    try:
                        r = s.amm_sells(tkn, tot * 0.3, pair=slash, execute=False)
                    except Exception as e:
                        r = {"success": False, "error": str(e)}
                finally:
                    sys.stdout = so
                if r["success"]:
                    outs.append([(x["amt1"], x["amt2"], x["routeix"]) for x in r["trades"].to_dict("records")])
                else:
                    outs.append(("failed", r["error"]))
            if outs[0] != outs[1]:
                run.res.violate("remembers", f"after a deletion a quote for {tkn} gives {outs[0]}; a pristine book with the "
                                             f"remaining orders gives {outs[1]}", ev.i)
                return


class C08(BookScenario):
    pid = "C08"
    quick_runs = 180
    oracle = DeleteOracle
    fault_p = 0.0
    gen = dict(nops=(6, 14), setup=(2, 6), w={"trade": 6, "add": 3, "order": 1, "del": 6, "state": 0.5})

    def generate(self, rng, tier):
        p = super().generate(rng, tier)
        for op in p["ops"]:
            if op["op"] == "del" and rng.random() < 0.3:
                op["alias"] = True
        return p


# ------------------------------------------------------------------ C10
class ContainOracle(QuoteOracle):
    """twin that never sees failing requests"""

    def after(self, run, ev):
        op, res = ev.op, run.res
        kind = op["op"]
        if ev.sx in self.off:
            return
        cfg = run.p["config"]["sims"][ev.sx]
        from .fault import StepBudget
        if isinstance(ev.exc, StepBudget):
            res.violate("no-progress", f"{kind} did not end: {ev.exc}", ev.i)
            return
        failed = (isinstance(ev.res, dict) and ev.res.get("success") is False) or ev.exc is not None
        async_exc = isinstance(ev.exc, (KeyboardInterrupt, SystemExit))
        contained_ops = ("trade", "add", "order", "bad", "state")
        if kind in contained_ops and not async_exc:
            is_del = kind == "bad" and op.get("kind") == "unhash"
            # a fault that strikes outside of the contained part of an entry point (its first or last
            # line) surfaces as the injected exception itself
            if ev.exc is not None and not cfg["raise"] and not is_del and not ev.fired:
                res.violate("escaped", f"{kind} {op.get('kind', '')} raised {type(ev.exc).__name__}: {str(ev.exc)[:100]} "
                                       f"although containment is on", ev.i)
                return
            if isinstance(ev.res, dict) and ev.res.get("success") is False:
                if cfg["raise"]:
                    res.violate("swallowed", f"{kind} {op.get('kind', '')} returned a failure record although containment is "
                                             f"off: {ev.res.get('error')}", ev.i)
                    return
                if not isinstance(ev.res.get("exception"), BaseException) or not isinstance(ev.res.get("error"), str):
                    res.violate("no-reason", f"{kind} failed without giving a reason: {ev.res}", ev.i)
                    return
                if str(ev.res["exception"]) != ev.res["error"]:
                    res.violate("no-reason", f"{kind}: reason {ev.res['error']!r} is not that of {ev.res['exception']!r}", ev.i)
                    return
        if kind == "trade" and not failed and not (isinstance(ev.res, dict) and ev.res.get("success") is True
                                                   and ev.res.get("trades") is not None):
            res.violate("no-result", f"trade returned {str(ev.res)[:100]}", ev.i)
            return
        if kind in ("add", "order") and not failed and not (isinstance(ev.res, dict) and ev.res.get("success") is True):
            res.violate("no-result", f"{kind} returned {str(ev.res)[:100]}", ev.i)
            return
        if failed:
            res.stats["failures"] += 1
            res.nontrivial = True
            d = same_book(ev.pre, ev.post)
            if d and not (ev.fired and (async_exc or kind == "del")):     # (a deletion may be interrupted after it is done)
                res.violate("failure-left-mark", f"failed {kind} {op.get('kind', '')} changed the book: {d}", ev.i)
                return
            if d is None:
                return
        if ev.fired:
            # the fault was absorbed, or an interrupt struck a step that does not promise to be undone: the
            # twin cannot know how far this step got, so the comparison ends here
            self.off.add(ev.sx)
            res.stats["twin_ended"] += 1
            return
        if kind in ("add", "order", "del", "bad", "trade"):
            op2 = {k: v for k, v in op.items() if k != "quote_first"}
            t = self.twins[ev.sx].apply(op2, ev.i)
            d = first_anon_diff(anon(ev.post), anon(t.post))
            if d is None and kind == "trade" and outcome(ev) != outcome(t):
                d = f"outcome {outcome(ev)} versus {outcome(t)}"
            if d:
                res.violate("failures-matter", f"{kind} works differently than in a book where the failed requests were never "
                                               f"made: {d}", ev.i)


class C10(BookScenario):
    pid = "C10"
    oracle = ContainOracle
    fault_p = 0.2
    budget = 3_000_000
    quick_runs = 200
    gen = dict(nops=(6, 14), raise_p=0.35, spoil_p=0.2, w={"trade": 8, "add": 2, "del": 1, "bad": 6, "state": 0.5})

    def execute(self, program):
        # the step budget uses the tracer; only arm it on runs without line faults
        b = self.budget if program.get("budget") else None
        return BookRun(program, self.oracle(), budget=b).run()

    def decorate(self, rng, p):
        if rng.random() < 0.25:
            p["budget"] = 1
        for o in p["ops"]:
            if o["op"] == "bad" and rng.random() < .12:
                o["kind"] = rng.choice(["sdk_empty", "sdk_none", "sdk_tokens"])

    def generate(self, rng, tier):
        p = super().generate(rng, tier)
        if any("fault" in o for o in p["ops"]):
            p.pop("budget", None)
        return p


# ------------------------------------------------------------------ C11
class LogOracle(Oracle):
    def __init__(self):
        self.rows = collections.defaultdict(dict)
        self.replay = collections.defaultdict(dict)
        self.count = collections.Counter()

    @staticmethod
    def freeze(d):
        return tuple(sorted((k, tuple(map(str, v))) for k, v in d.items()))

    def after(self, run, ev):
        op, res, sim = ev.op, run.res, ev.sim
        kind = op["op"]
        old = self.rows[ev.sx]
        for u, f in old.items():
            if u not in sim.trades:
                res.violate("row-lost", f"log row {u} vanished during {kind}", ev.i)
                return
            if self.freeze(sim.trades[u]) != f:
                res.violate("row-changed", f"log row {u} changed during {kind}", ev.i)
                return
        if list(sim.trades)[:len(old)] != list(old):
            res.violate("row-order", f"log order changed during {kind}", ev.i)
            return
        new = ev.new_uids if op.get("quote_first") is None else [u for u in sim.trades if u not in old]
        rows = rows_of(sim.trades, new)
        # expected numbering
        ids = []
        for u, r in zip(new, rows):
            if r["uid"] != u:
                res.violate("numbering", f"row stored as {u} says uid {r['uid']}", ev.i)
                return
            if r["id"] not in ids:
                ids.append(r["id"])
        n0 = self.count[ev.sx]
        if ids != list(range(n0, n0 + len(ids))) or sim.numtrades != n0 + len(ids):
            res.violate("numbering", f"after {n0} trades the new rows have ids {ids}, next trade number {sim.numtrades}", ev.i)
            return
        self.count[ev.sx] += len(ids)
        for t in ids:
            g = [r for r in rows if r["id"] == t]
            a = agg_row(g)
            rr = routes(g)
            if a is None or a["uid"] != f"{t}" or [r["uid"] for r in rr] != [f"{t}.{j}" for j in range(len(rr))] \
                    or g[-1] is not a:
                res.violate("numbering", f"trade {t} has rows {[r['uid'] for r in g]}", ev.i)
                return
            if a["nroutes"] != len(rr) or a["routeix"] != str([r["routeix"] for r in rr]):
                res.violate("aggregate", f"trade {t}: aggregate says {a['nroutes']} fills {a['routeix']}, rows are "
                                         f"{[r['routeix'] for r in rr]}", ev.i)
                return
            for f in ("amt1", "amt2"):
                tot = sum(float(r[f]) for r in rr)
                if not close(tot, a[f], 1e-9, 1e-11 * (1 + len(rr))):
                    res.violate("aggregate", f"trade {t}: fills add up to {tot!r} but the aggregate says {a[f]!r}", ev.i)
                    return
            for r in rr:
                if r["exec"] != a["exec"] or r["limitfail"] != a["limitfail"] or (r["tkn1"], r["tkn2"]) != (a["tkn1"], a["tkn2"]) \
                        or r["pair"] != a["pair"]:
                    res.violate("aggregate", f"trade {t}: rows disagree: {r} / {a}", ev.i)
                    return
        if kind == "trade" and not ev.fired:
            moved = same_book(ev.pre, ev.post) is not None
            if ev.ok and not ids:
                res.violate("unlogged", "successful request without log entry", ev.i)
                return
            if moved != any(r["exec"] for r in rows):
                res.violate("exec-flag", f"balances {'moved' if moved else 'did not move'} but the log says exec="
                                         f"{[r['exec'] for r in rows]}", ev.i)
                return
            if ev.ok and isinstance(ev.res, dict):
                got = ev.res["trades"].to_dict("records")
                want = rows_of(sim.trades, ev.new_uids)
                if [tuple(map(str, (g.get(k) for k in sorted(w)))) for g, w in zip(got, want)] != \
                        [tuple(str(w[k]) for k in sorted(w)) for w in want] or len(got) != len(want):
                    res.violate("receipt", f"the returned table {[g['uid'] for g in got]} is not the new part of the log "
                                           f"{ev.new_uids}", ev.i)
                    return
        # replay
        rep = self.replay[ev.sx]
        for k in list(rep):
            if k not in ev.post:
                del rep[k]
        for k, v in ev.post.items():
            if k not in ev.pre:
                rep[k] = list(v)
        want = apply_rows({k: tuple(v) for k, v in rep.items()}, rows)
        if isinstance(want, str):
            res.violate("replay", f"the log cannot be replayed: {want}", ev.i)
            return
        self.replay[ev.sx] = {k: list(v) for k, v in want.items()}
        d = diff_books(want, ev.post, 1e-9, 1e-10)
        if d:
            res.violate("replay", f"replaying the executed log rows does not give the present book: {d}", ev.i)
            return
        for u in new:
            old[u] = self.freeze(sim.trades[u])
        if kind == "state" and ev.ok and op.get("hist", True) and isinstance(ev.res, dict) and len(sim.trades):
            df = ev.res["trades"]
            if list(df["uid"]) != list(sim.trades):
                res.violate("view", f"the reported log has rows {list(df['uid'])}, the log {list(sim.trades)}", ev.i)


class C11(BookScenario):
    pid = "C11"
    oracle = LogOracle
    fault_p = 0.2
    gen = dict(nops=(8, 16), w={"trade": 12, "add": 2, "del": 1, "state": 2, "bad": 1})


# ------------------------------------------------------------------ C13
class StateOracle(Oracle):
    def __init__(self):
        self.kept = []

    def fail(self, run, ev, kind, msg):
        run.res.violate(kind, msg, ev.i)
        return True

    def after(self, run, ev):
        op, res, sim = ev.op, run.res, ev.sim
        kind = op["op"]
        if kind in ("state", "liq"):
            d = same_book(ev.pre, ev.post)
            if d or ev.new_uids or ev.gone_uids or ev.post_num != ev.pre_num:
                res.violate("report-changes-book", f"{kind} changed the book: {d or 'log'}", ev.i)
                return
        if kind == "state":
            if ev.exc is not None or (isinstance(ev.res, dict) and ev.res.get("success") is False):
                if "pair" in op and sim.orders and not any(o.pair_name == op["pair"] for o in sim.orders.values()):
                    return       # nothing to report for that pair: an error is the documented way out
                res.violate("no-report", f"state() failed: {ev.exc or ev.res}", ev.i)
                return
            if self.check_state(run, ev):
                return
            self.kept.append((ev.i, ev.res, self.freeze(ev.res)))
            res.nontrivial = True
        elif kind == "liq":
            self.check_liq(run, ev)

    @staticmethod
    def freeze(s):
        o = s["orders"].to_dict("records")
        t = s["trades"].to_dict("records") if s["trades"] is not False else False
        u = {k: (v.y, v.yint, v.B, v.S, v.tkn, v.lid) for k, v in s["orderuis"].items()}
        return repr((o, t, u))

    def check_state(self, run, ev):
        s, sim, op = ev.res, ev.sim, ev.op
        sel = {k: v for k, v in ev.post.items() if "pair" not in op or v[PN] == op["pair"]}
        if not ev.post:
            if len(s["orders"]) or s["orderuis"]:
                return self.fail(run, ev, "wrong-report", "orders reported for an empty book")
            rows = []
        else:
            rows = s["orders"].to_dict("records")
        if [r["id"] for r in rows] != list(sel):
            return self.fail(run, ev, "wrong-report", f"orders reported {[r['id'] for r in rows]}, expected {list(sel)}")
        if set(s["orderuis"]) != set(sel):
            return self.fail(run, ev, "wrong-report", f"order views {sorted(s['orderuis'])}, expected {sorted(sel)}")
        for r in rows:
            v = sel[r["id"]]
            o = sim.orders[r["id"]]
            rp = R.RefPair(o.pair.slashpair)
            chk = [("pair", r["pair"], v[PN]), ("tkn", r["tkn"], v[TKN]), ("y_unit", r["y_unit"], v[TKN]),
                   ("disabled", bool(r["disabled"]), v[DIS]), ("lid", r["lid"], v[LINK]), ("cid", r["cid"], v[CID]),
                   ("p_unit", r["p_unit"], f"{rp.q} per {rp.b}")]
            for n, g, w in chk:
                if g != w:
                    return self.fail(run, ev, "wrong-report", f"order {r['id']}: {n} reported {g!r}, is {w!r}")
            num = [("y", r["y"], float(v[Y])), ("y_int", r["y_int"], float(v[Z]))]
            if not v[DIS]:
                conv = (lambda p: float(p)) if v[TKN] == rp.q else (lambda p: 1 / float(p))
                num += [("p_start", r["p_start"], conv(v[PH])), ("p_end", r["p_end"], conv(v[PL]))]
                if float(v[Y]) >= 0 and not (v[Z] == 0):
                    num.append(("p_marg", r["p_marg"], conv(R.marg(v[Y], v[Z], v[PL], v[PH]))))
            else:
                for n in ("p_start", "p_end", "p_marg"):
                    if r[n] is not None and r[n] == r[n]:
                        return self.fail(run, ev, "wrong-report", f"order {r['id']}: {n} reported for a disabled order")
            for n, g, w in num:
                if g is None or not close(g, w, 1e-9, 1e-300):
                    return self.fail(run, ev, "wrong-report", f"order {r['id']}: {n} reported {g!r}, is {w!r}")
            u = s["orderuis"][r["id"]]
            if u.tkn != v[TKN] or not close(u.y, v[Y], 1e-12, 0) or not close(u.yint, v[Z], 1e-12, 0) or \
                    u.id != r["id"] or u.lid != v[LINK] or u.linked is not s["orderuis"][v[LINK]]:
                return self.fail(run, ev, "wrong-report", f"view of order {r['id']}: {u.tkn} y={u.y} yint={u.yint} id={u.id} "
                                                          f"lid={u.lid}; order {v}")
            if not v[DIS]:
                for n, g, w in (("pa", u.pa, num[2][2]), ("pb", u.pb, num[3][2])):
                    if not close(g, w, 1e-9, 0):
                        return self.fail(run, ev, "wrong-report", f"view of order {r['id']}: {n} {g!r}, is {w!r}")
        t = s["trades"]
        if op.get("hist") is False:
            if t is not False:
                return self.fail(run, ev, "wrong-report", "history reported though not asked for")
        elif len(sim.trades) == 0:
            if len(t):
                return self.fail(run, ev, "wrong-report", "trades reported though there are none")
        else:
            got = t.to_dict("records")
            want = rows_of(sim.trades, list(sim.trades))
            if len(got) != len(want):
                return self.fail(run, ev, "wrong-report", f"{len(got)} log rows reported, log has {len(want)}")
            for g, w in zip(got, want):
                for k in w:
                    if str(g[k]) != str(w[k]):
                        return self.fail(run, ev, "wrong-report", f"log row {w['uid']}: {k} reported {g[k]!r}, is {w[k]!r}")
        # detachment: scribble over the report, the book must not notice
        if ev.op.get("scribble"):
            pre = snap(sim)
            log = repr(rows_of(sim.trades, list(sim.trades)))
            try:
                df = s["orders"]
                for c in ("y", "y_int", "p_start"):
                    if c in df.columns:
                        df[c] = -1.0
                if s["trades"] is not False and len(s["trades"]):
                    s["trades"]["amt1"] = -1.0
                    s["trades"]["exec"] = "?"
                for u in s["orderuis"].values():
                    u.y, u.yint, u.B = -1.0, -1.0, 5.0
                    u.linked = None
            except Exception as e:
                raise HarnessError(f"scribbling failed: {e!r}")
            d = same_book(pre, snap(sim))
            if d or log != repr(rows_of(sim.trades, list(sim.trades))):
                return self.fail(run, ev, "attached", f"modifying a report altered the book: {d or 'log'}")
            ev.res = {"orders": s["orders"], "orderuis": {}, "trades": False}
        return False

    def check_liq(self, run, ev):
        if ev.exc is not None:
            if not ev.post:
                return
            run.res.violate("no-report", f"liquidity() failed: {ev.exc!r}", ev.i)
            return
        want = {}
        for v in ev.post.values():
            want.setdefault((v[PN], v[TKN]), 0.0)
            want[v[PN], v[TKN]] += float(v[Y])
        r = ev.res
        if r is None:
            if want:
                run.res.violate("wrong-liquidity", "no liquidity reported", ev.i)
            return
        if isinstance(r, dict) and r.get("success") is False:
            return
        if isinstance(r, dict):
            got = {(p, t): x for p, d in r.items() for t, x in d.items()}
        else:
            got = {k: x["y"] for k, x in zip(r.index, r.to_dict("records"))}
        if set(got) != set(want) or any(not close(got[k], want[k], 1e-9, 1e-9) for k in want):
            run.res.violate("wrong-liquidity", f"liquidity reported {got}, is {want}", ev.i)
        run.res.nontrivial = True

    def end(self, run):
        for i, s, f in self.kept:
            if s["orderuis"] and self.freeze(s) != f:
                run.res.violate("report-mutated", f"a state report taken at step {i} changed afterwards", i)
                return


class C13(BookScenario):
    pid = "C13"
    oracle = StateOracle
    fault_p = 0.1
    gen = dict(nops=(8, 16), w={"trade": 6, "add": 3, "order": 1, "del": 1.5, "state": 6, "liq": 2},
               pairs=[["ETH/USDC"], ["ETH/USDC", "ETH/USD"], ["ETH/USDC", "WETH/USDC"], ["ETH/USD", "WETH/USDC", "ETH/USDC"],
                      ["USDC/ETH", "ETH/USDC"], ["WBTC/USDC", "ETH/USDC"], ["LINK/ETH"]])

    def generate(self, rng, tier):
        p = super().generate(rng, tier)
        for op in p["ops"]:
            if op["op"] == "state" and rng.random() < 0.4:
                op["scribble"] = True
        return p


# ------------------------------------------------------------------ C14
class EligibleOracle(Oracle):
    def after(self, run, ev):
        op, res = ev.op, run.res
        if op["op"] != "trade":
            return
        mm = run.mm(ev.sx)
        rr = routes(ev.rows)
        used = [r["routeix"] for r in rr]
        for k in used:
            if k not in ev.elig:
                o = ev.pre.get(k)
                res.violate("ineligible", f"trade of {ev.sold} for {ev.bought} in {op['pair']} (use={op.get('use')}) was filled by "
                                          f"order {k} ({o and (o[TKN], o[PN], float(o[Y]), o[DIS])}); eligible {ev.elig}", ev.i)
                return
        if len(set(used)) != len(used):
            res.violate("repeated", f"fills {used} repeat an order", ev.i)
            return
        if mm == "alpha":
            thr = op.get("thr", 10)
            if len(used) > thr:
                res.violate("threshold", f"{len(used)} orders used with threshold {thr}", ev.i)
                return
        if not ev.elig and (ev.ok or same_book(ev.pre, ev.post)) and not ev.fired:
            res.violate("nothing-eligible", f"no order was eligible but the request succeeded: {outcome(ev)}", ev.i)
            return
        # orders that moved: only used ones and their links
        ok = set(used) | {ev.pre[k][LINK] for k in used if k in ev.pre}
        for k in ev.pre:
            if k in ev.post and ev.pre[k][Y] != ev.post[k][Y] and k not in ok:
                res.violate("ineligible", f"order {k} changed although it is not among the fills {used}", ev.i)
                return


class C14(BookScenario):
    pid = "C14"
    oracle = EligibleOracle
    fault_p = 0.05
    gen = dict(nops=(8, 16), setup=(3, 8), default_pair_p=0.4, oneside_p=0.35, w={"trade": 12, "add": 3, "order": 1, "del": 0.7},
               pairs=[["ETH/USDC", "WBTC/USDC"], ["ETH/USDC", "USDC/ETH"], ["ETH/USDC", "WBTC/ETH", "WBTC/USDC"],
                      ["ETH/XETH", "ETHX/ETH"], ["USDC/USDT", "ETH/USDC"], ["ETH/USDC"], ["ETHX/ETH", "ETH/XETH", "ETH/USDC"]])

    def decorate(self, rng, p):
        for op in p["ops"]:
            if op["op"] == "trade":
                op["frac"] = sig(min(op["frac"], 0.98), 5)
                op.pop("limit", None)
                if rng.random() < 0.35:
                    op["use"] = rng.choice(("half", "one", "none", "bogus", "all", "other"))
                if rng.random() < 0.3:
                    op["thr"] = rng.choice((1, 2, 3))
                    op["frac"] = sig(op["frac"] * rng.choice((0.05, 0.3, 1)), 5)


# ------------------------------------------------------------------ C15
class BestOracle(Oracle):
    def after(self, run, ev):
        op, res = ev.op, run.res
        if op["op"] != "trade" or not ev.ok or not ev.rows or ev.fired:
            return
        mm = run.mm(ev.sx)
        a = agg_row(ev.rows)
        if a is None:
            return
        curves, cy, cx = ev.ref
        a1, a2 = float(a["amt1"]), float(a["amt2"])
        if not curves or a1 <= 0 or a2 <= 0:
            return
        pw = max(1 / float(c[2]) for c in curves)            # most paid per unit sold
        pb = max(float(c[3]) for c in curves)                # most sold per unit paid
        n = len(curves) + 1
        if ev.by_target:
            opt = R.optimal(curves, dy=min(a1, cy))
            if opt is None:
                return
            # opt: least the trader can pay for a1
            tol = 1e-7 * opt + n * 2e-12 * (1 + pw)
            adv, what = opt - a2, f"{a1!r} {ev.sold} cost {a2!r} {ev.bought}, best possible {opt!r}"
        else:
            opt = R.optimal(curves, dx=min(a2, cx))
            if opt is None:
                return
            tol = 1e-7 * opt + n * 2e-12 * (1 + pb)
            adv, what = a1 - opt, f"{a2!r} {ev.bought} bought {a1!r} {ev.sold}, best possible {opt!r}"
        if adv > tol:
            res.violate("better-than-possible", f"{mm}: {what}", ev.i)
            return
        full = mm == "exact" or (mm == "alpha" and op.get("thr", 10) >= len(curves))
        if full and adv < -tol:
            res.violate("not-optimal", f"{mm}: {what} ({len(curves)} orders, {len(ev.rows) - 1} fills)", ev.i)


class C15(BookScenario):
    pid = "C15"
    oracle = BestOracle
    fault_p = 0.0
    gen = dict(nops=(6, 14), setup=(3, 7), mms=("exact", "exact", "alpha", "fast"), overlap_p=0.35,
               w={"trade": 12, "add": 2, "del": 0.5})


# ------------------------------------------------------------------ C16
class EntryOracle(Oracle):
    MUST_FAIL = {"sdk_empty", "sdk_none", "sdk_tokens", "badtkn", "price1", "price1b", "margboth", "yintlow", "yintlow2", "negamt", "neg_price"}
    # neg_price, zprice, ... are refused or not depending on the arithmetic; they are not part of the property

    def __init__(self):
        self.seen = collections.defaultdict(set)

    def after(self, run, ev):
        op, res = ev.op, run.res
        kind = op["op"]
        new = [k for k in ev.post if k not in ev.pre]
        if kind == "bad":
            if op["kind"] in self.MUST_FAIL and (new or ev.ok):
                res.violate("accepted", f"invalid description '{op['kind']}' was accepted", ev.i)
            return
        if new and kind not in ("add", "order"):
            res.violate("spurious", f"{kind} created orders {new}", ev.i)
            return
        if kind not in ("add", "order") or ev.fired:
            return
        if op.get("invalid"):
            if ev.ok or new:
                res.violate("accepted", f"invalid description ({op['invalid']}) was accepted: {ev.args}", ev.i)
            else:
                res.stats["invalid_refused"] += 1
            return
        if not ev.ok:
            res.violate("refused", f"valid strategy {ev.args} was refused: {outcome(ev)}", ev.i)
            return
        if len(new) != 2:
            res.violate("legs", f"a strategy created orders {new}", ev.i)
            return
        if set(new) & self.seen[ev.sx]:
            res.violate("id-reused", f"ids {new} were used before", ev.i)
            return
        self.seen[ev.sx] |= set(new)
        rp = R.RefPair(op["pair"])
        if kind == "order":
            sides = [dict(tkn=op["tkn"], amt=op["amt"], a=op["ps"], b=op["pe"], marg=op.get("marg"), yint=op.get("yint")),
                     dict(tkn=rp.other(op["tkn"]), amt=None, a=None, b=None, marg=None, yint=None)]
        else:
            sides = [dict(tkn=op["tkn"], amt=op["amt_sell"], a=op["ps"], b=op["pe"], marg=op.get("marg_sell"), yint=op.get("yint_sell")),
                     dict(tkn=rp.other(op["tkn"]), amt=op["amt_buy"], a=op["bs"], b=op["be"], marg=op.get("marg_buy"),
                          yint=op.get("yint_buy"))]
        d = integrity(ev.post)
        if d:
            res.violate("legs", d, ev.i)
            return
        if "sdk" in op:
            res.stats["sdk_strategies"] += 1
        for j, (k, s) in enumerate(zip(new, sides)):
            o = ev.post[k]
            msg = self.check_sdk(o, s, rp, op, j) if "sdk" in op else self.check(o, s, rp, op)
            if msg:
                res.violate("wrong-entry", f"order {k}: {msg}; described as {s}", ev.i)
                return
        if ev.post[new[0]][LINK] != new[1]:
            res.violate("legs", f"orders {new} are not linked to each other", ev.i)
            return
        df = ev.res["orders"].to_dict("records")
        ou = ev.res["orderuis"]
        if [r["id"] for r in df] != new or set(ou) != set(new) or any(ou[k].lid != ev.post[k][LINK] for k in new):
            res.violate("report", f"creation of {new} reported as {[r['id'] for r in df]} {list(ou)}", ev.i)

    @staticmethod
    def check_sdk(o, s, rp, op, j):
        """budgets are capacities, of which the encoded curve tells how much is left; nsd digits are kept"""
        x = op["sdk"]
        tol = 1e-9 if x["nsd"] is None else 6 * 10.0 ** -x["nsd"]
        if o[TKN] != s["tkn"] or o[PN] != rp.b + rp.q:
            return f"sells {o[TKN]} in {o[PN]}"
        if str(o[CID]) != str(x["id"]):
            return f"carbon id {o[CID]!r}"
        z = float(s["amt"] or 0)
        if s["a"] is None:
            return None if o[DIS] and not o[Y] else f"holds {o[Y]}, disabled={o[DIS]} although it has no range"
        if o[DIS]:
            return "disabled although it has a range"
        lo, hi = sorted(float(rp.to_curve(p, s["tkn"])) for p in (s["a"], s["b"]))
        if not close(o[PL], lo, tol, 0) or not close(o[PH], hi, tol, 0):
            return f"range {float(o[PL])!r}..{float(o[PH])!r}, expected {lo!r}..{hi!r} (in {s['tkn']} per other token)"
        if not close(o[Z], z, tol, 0):
            return f"capacity {o[Z]}, expected {z}"
        w = z * x["y"][j] / x["z"][j] if x["z"][j] else 0.0
        if not close(o[Y], w, tol, 0):
            return f"balance {o[Y]}, expected {w}"
        return None

    @staticmethod
    def check(o, s, rp, op):
        if o[TKN] != s["tkn"] or o[PN] not in (rp.b + rp.q,):
            return f"sells {o[TKN]} in {o[PN]}"
        if o[CID] != (op.get("cid") or ""):
            return f"carbon id {o[CID]!r}"
        if R.D(o[Y]) != R.D(s["amt"] or 0):
            return f"balance {o[Y]}"
        if s["a"] is None:
            if not o[DIS]:
                return "not disabled although it has no range"
            return None
        if o[DIS]:
            return "disabled although it has a range"
        lo, hi = sorted(float(rp.to_curve(p, s["tkn"])) for p in (s["a"], s["b"]))
        if not close(o[PL], lo, 1e-12, 0) or not close(o[PH], hi, 1e-12, 0):
            return f"range {float(o[PL])!r}..{float(o[PH])!r}, expected {lo!r}..{hi!r} (in {s['tkn']} per other token)"
        if s["yint"] is not None:
            if R.D(o[Z]) != R.D(s["yint"]):
                return f"capacity {o[Z]}"
        elif s["marg"] is not None and float(s["amt"] or 0) > 0:
            m = float(R.marg(o[Y], o[Z], o[PL], o[PH]))
            w = float(rp.to_curve(s["marg"], s["tkn"]))
            if not close(m, w, 1e-9, 0):
                return f"marginal price {m!r}, expected {w!r}"
        elif R.D(o[Z]) != R.D(s["amt"] or 0):
            return f"capacity {o[Z]}"
        return None


class C16(BookScenario):
    pid = "C16"
    oracle = EntryOracle
    fault_p = 0.0
    quick_runs = 400
    gen = dict(nops=(8, 16), setup=(1, 4), spoil_p=0.25, marg_p=0.35, yint_p=0.3, w={"trade": 2, "add": 8, "order": 3, "del": 2, "bad": 3})
    rule = "distinct histories that entered at least one strategy and traded"
    SDKTOK = {"ETH", "USDC", "USDT", "WBTC", "LINK", "BNT", "DAI"}      # in the token list of the SDK

    def decorate(self, rng, p):
        """some strategies arrive in the format of the SDK"""
        for o in p["ops"]:
            if o["op"] == "bad" and rng.random() < .15:
                o["kind"] = rng.choice(["sdk_empty", "sdk_none", "sdk_tokens"])
            if o["op"] != "add" or o.get("invalid") or rng.random() > .25:
                continue
            rp = R.RefPair(o["pair"])
            if o["tkn"] != rp.b or not {rp.b, rp.q} <= self.SDKTOK:
                continue
            for k in ("marg_sell", "marg_buy", "yint_sell", "yint_buy", "cid"):
                o.pop(k, None)
            z = [0 if o[a] is None or not o[m] else rng.randrange(1, 10 ** rng.randint(1, 24)) for a, m in (("ps", "amt_sell"), ("bs", "amt_buy"))]
            for a, m in (("ps", "amt_sell"), ("bs", "amt_buy")):
                if o[a] is None:
                    o[m] = 0
            o["sdk"] = {"id": rng.randrange(1, 1 << rng.choice([8, 130])), "z": z, "swap": rng.random() < .5, "nsd": rng.choice([None, None, 6, 9]),
                        "y": [rng.choice([0, x, rng.randint(0, x), rng.randint(0, x)]) for x in z]}
            if rng.random() < .15:
                o["sdk"]["spoil"] = o["invalid"] = rng.choice(["tokens", "price", "sellBudget", "buyPriceLow", "encoded", "id", "baseToken"])
