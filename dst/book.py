"""
The order-book world: real CarbonSimulatorUI instances driven by simulated clients
(liquidity providers and traders) whose operations are interleaved by a seeded
scheduler, with faults injected inside operations.

`BookRun` executes a program and hands one Event per operation to the property oracle.
"""
import collections
import io
import math
import sys
from decimal import Decimal

from . import boot
from .core import Result, HarnessError, h8
from .fault import Tracer, NullOut, StepBudget, EXC, pick_site
from . import refmodel as R

from carbon import CarbonSimulatorUI
from carbon.pair import CarbonPair

import numpy as np
import pandas as pd

MIDS = {"ETH/USDC": 2000.0, "WBTC/USDC": 30000.0, "LINK/ETH": 0.004, "USDC/USDT": 1.0,
        "WBTC/ETH": 15.0, "USDC/ETH": 1 / 2000.0, "ETH/XETH": 1.1, "ETHX/ETH": 0.9,
        "BNT/USDC": 0.5, "ETH/USD": 2000.0, "WETH/USDC": 2000.0}
TKNUSD = {"ETH": 2000.0, "WETH": 2000.0, "USD": 1.0, "USDC": 1.0, "USDT": 1.0, "WBTC": 30000.0, "LINK": 8.0, "XETH": 1800.0,
          "ETHX": 1800.0, "BNT": 0.5}


def sig(x, n=7):
    """round to n significant digits (keeps programs readable)"""
    if x == 0 or x != x or x in (math.inf, -math.inf):
        return x
    return float(f"{x:.{n}g}")


def sdk_strategy(op):
    """a strategy as the SDK describes it: prices of the base token in the quote token, budgets, and the encoded curves"""
    rp, x = R.RefPair(op["pair"]), op["sdk"]
    bn = lambda n: {"type": "BigNumber", "hex": hex(n)}
    d = {"id": bn(x["id"]), "baseToken": rp.b, "quoteToken": rp.q}
    for k, a, b, amt in (("sell", "ps", "pe", "amt_sell"), ("buy", "bs", "be", "amt_buy")):
        lo, hi = sorted((op[a], op[b])) if op[a] is not None else (0, 0)
        d.update({k + "PriceLow": repr(lo), k + "PriceHigh": repr(hi), k + "Budget": repr(op[amt] or 0)})
    enc = [{"y": bn(x["y"][j]), "z": bn(x["z"][j]), "A": bn(1), "B": bn(1)} for j in (0, 1)]        # base, quote token
    t = [rp.b, rp.q]
    if x["swap"]:
        enc.reverse()
        t.reverse()
    d["encoded"] = {"id": bn(x["id"]), "token0": t[0], "token1": t[1], "order0": enc[0], "order1": enc[1]}
    if x.get("spoil") == "tokens":
        d["encoded"]["token1"] = "BNT" if "BNT" not in t else "DAI"
    elif x.get("spoil") == "price":
        d["sellPriceLow"] = "n/a"
    elif x.get("spoil"):
        del d[x["spoil"]]
    return d


# ------------------------------------------------------------------ program generation
class Gen:
    """random programs; `w` weights the operation kinds"""

    def __init__(self, rng, w=None, mms=("exact", "alpha", "fast"), pairs=None, nops=(6, 14),
                 nsims=1, raise_p=0.2, verbose_p=0.15, common_mid=False, setup=(1, 5),
                 usd=(1.0, 5.5), flat_p=0.12, oneside_p=0.2, marg_p=0.25, yint_p=0.2,
                 dec_p=0.1, overlap_p=0.15, clients=4, default_pair_p=0.7, spoil_p=0.03):
        self.r = rng
        self.w = w or {"trade": 10, "add": 3, "order": 1, "del": 1, "state": 1, "liq": 0.5}
        self.mms = mms
        self.allpairs = pairs
        self.nops = nops
        self.nsims = nsims
        self.raise_p, self.verbose_p = raise_p, verbose_p
        self.common_mid = common_mid
        self.setup = setup
        self.usd = usd
        self.flat_p, self.oneside_p, self.marg_p, self.yint_p = flat_p, oneside_p, marg_p, yint_p
        self.overlap_p = overlap_p
        self.spoil_p = spoil_p
        self.clients = clients
        self.default_pair_p = default_pair_p

    def pick(self, seq):
        return seq[self.r.randrange(len(seq))]

    def pairset(self):
        r = self.r
        if self.allpairs:
            return list(self.pick(self.allpairs))
        x = r.random()
        if x < 0.40:
            return ["ETH/USDC"]
        if x < 0.45:
            return ["ETH/USDC", self.pick(("ETH/USD", "WETH/USDC"))]
        if x < 0.65:
            return ["ETH/USDC", "WBTC/USDC"]
        if x < 0.75:
            return ["ETH/USDC", "USDC/ETH"]
        if x < 0.82:
            return ["LINK/ETH", "ETH/USDC"]
        if x < 0.88:
            return ["USDC/USDT"]
        if x < 0.94:
            return ["WBTC/ETH"]
        return ["BNT/USDC"]

    def config(self):
        r = self.r
        self.pairs = self.pairset()
        sims = []
        for _ in range(self.nsims):
            sims.append({"mm": self.pick(self.mms),
                         "pair": self.pairs[0] if r.random() < self.default_pair_p else None,
                         "raise": r.random() < self.raise_p,
                         "verbose": r.random() < self.verbose_p,
                         "debug": r.random() < 0.05})
        return {"sims": sims}

    # ---- operations
    def amount(self, tkn):
        r = self.r
        usd = 10 ** r.uniform(*self.usd)
        a = usd / TKNUSD[tkn]
        x = r.random()
        if x < 0.25:
            a = max(1, round(a))
            return int(a)
        return sig(a, r.choice([2, 4, 9]))

    def rangeside(self, mid, up, overlap):
        """price range above (up) or below mid, returned as (start, end), start nearest mid"""
        r = self.r
        off = 10 ** r.uniform(-3.5, -0.5)
        if overlap:
            off = -off * 0.5
        if r.random() < self.flat_p:
            w = 0.0
        else:
            x = r.random()
            w = 10 ** (r.uniform(-3, 0.5) if x < 0.75 else r.uniform(0.5, 2) if x < 0.87 else r.uniform(-5, -3))
        if up:
            a = mid * (1 + off)
            b = a * (1 + w)
        else:
            a = mid / (1 + off)
            b = a / (1 + w)
        a, b = sig(a, 8), sig(b, 8)
        if w == 0.0:
            b = a
        return a, b

    def add(self, sim):
        r = self.r
        pair = self.pick(self.pairs)
        rp = R.RefPair(pair)
        mid = MIDS[pair]
        if not self.common_mid:
            mid *= 1 + r.uniform(-0.05, 0.05)
        overlap = (not self.common_mid) and r.random() < self.overlap_p
        sb = self.rangeside(mid, True, overlap)       # sell base above mid
        bb = self.rangeside(mid, False, overlap)      # buy base below mid
        tkn = rp.b
        op = {"op": "add", "sim": sim, "pair": pair, "client": f"lp{r.randrange(self.clients)}"}
        if r.random() < 0.25:
            # describe the strategy from the quote token's point of view
            tkn = rp.q
            amt_sell, amt_buy = self.amount(rp.q), self.amount(rp.b)
            sell, buy = bb, sb
        else:
            amt_sell, amt_buy = self.amount(rp.b), self.amount(rp.q)
            sell, buy = sb, bb
        x = r.random()
        two = x > self.oneside_p
        sell_on = two or x < self.oneside_p / 2
        buy_on = two or not sell_on
        op.update(tkn=tkn)
        if r.random() < 0.12:
            sell = sell[::-1]
        if r.random() < 0.12:
            buy = buy[::-1]
        if r.random() < 0.08:
            if r.random() < 0.5:
                amt_sell = 0
            else:
                amt_buy = 0
        op["amt_sell"] = amt_sell if (sell_on or r.random() < 0.3) else None
        op["amt_buy"] = amt_buy if (buy_on or r.random() < 0.3) else None
        op["ps"], op["pe"] = sell if sell_on else (None, None)
        op["bs"], op["be"] = buy if buy_on else (None, None)
        for side, on, rng_, amt in (("sell", sell_on, sell, op["amt_sell"]), ("buy", buy_on, buy, op["amt_buy"])):
            if not on:
                continue
            y = r.random()
            if y < self.marg_p and rng_[0] != rng_[1] and amt:
                f = r.uniform(0.02, 1.0)
                op["marg_" + side] = sig(rng_[0] ** f * rng_[1] ** (1 - f), 10)
            elif y < self.marg_p + self.yint_p and amt:
                op["yint_" + side] = sig(amt * (1 + 10 ** r.uniform(-2, 1)), 8)
        if r.random() < 0.15:
            op["cid"] = f"c{r.randrange(1000)}"
        return op

    def order(self, sim):
        op = self.add(sim)
        out = {"op": "order", "sim": sim, "pair": op["pair"], "client": op["client"]}
        rp = R.RefPair(op["pair"])
        mid = MIDS[op["pair"]] * (1 + (0 if self.common_mid else self.r.uniform(-0.05, 0.05)))
        if self.r.random() < 0.5:
            out["tkn"], (a, b) = rp.b, self.rangeside(mid, True, False)
        else:
            out["tkn"], (a, b) = rp.q, self.rangeside(mid, False, False)
        out["amt"] = self.amount(out["tkn"])
        out["ps"], out["pe"] = (a, b) if self.r.random() > 0.12 else (b, a)
        y = self.r.random()
        if y < self.marg_p and a != b:
            f = self.r.uniform(0.02, 1.0)
            out["marg"] = sig(a ** f * b ** (1 - f), 10)
        elif y < self.marg_p + self.yint_p:
            out["yint"] = sig(out["amt"] * (1 + 10 ** self.r.uniform(-2, 1)), 8)
        return out

    def trade(self, sim, **kw):
        r = self.r
        pair = self.pick(self.pairs)
        rp = R.RefPair(pair)
        op = {"op": "trade", "sim": sim, "client": f"t{r.randrange(self.clients)}", "pair": pair,
              "side": self.pick(("buy", "sell")), "tkn": self.pick((rp.b, rp.q))}
        x = r.random()
        if x < 0.62:
            op["frac"] = sig(10 ** r.uniform(-3, -0.05), 4)
        elif x < 0.75:
            op["frac"] = 1.0
        elif x < 0.85:
            op["frac"] = sig(r.uniform(0.9, 0.9999), 5)
        else:
            op["frac"] = sig(1 + 10 ** r.uniform(-3, 0.7), 5)
        if r.random() < 0.15:
            op["execute"] = False
        if r.random() < 0.2:
            op["limit"] = {"kind": self.pick(("price", "amt")),
                           "rel": self.pick((-0.3, -0.02, -1e-3, 1e-3, 0.02, 0.3))}
        if r.random() < 0.15:
            op["use"] = self.pick(("half", "one", "none", "bogus", "all", "other"))
        if r.random() < 0.2:
            op["partial"] = True
        if r.random() < 0.2:
            op["thr"] = self.pick((1, 2, 3, 5))
        if r.random() < 0.1:
            op["neg"] = True
        if r.random() < 0.2:
            op["alias"] = True
        op.update(kw)
        return op

    def one(self, sim):
        r = self.r
        kinds = list(self.w)
        k = r.choices(kinds, [self.w[k] for k in kinds])[0]
        return getattr(self, "op_" + k)(sim)

    def op_trade(self, sim):
        return self.trade(sim)

    def op_add(self, sim):
        return self.spoil(self.add(sim))

    def op_order(self, sim):
        return self.spoil(self.order(sim))

    def spoil(self, op):
        """sometimes turns a valid description of a strategy into a contradictory one"""
        r = self.r
        if r.random() >= self.spoil_p:
            return op
        if op["op"] == "order":
            sides = [("amt", "ps", "pe", "marg", "yint")]
        else:
            sides = [s for s in (("amt_sell", "ps", "pe", "marg_sell", "yint_sell"), ("amt_buy", "bs", "be", "marg_buy", "yint_buy"))
                     if op[s[1]] is not None]
        amt, a, b, marg, yint = self.pick(sides)
        k = self.pick(("half", "half", "both", "lowcap", "negative", "token"))
        if k == "half":
            op[self.pick((a, b))] = None
        elif k == "both":
            if not op[amt]:
                op[amt] = 1
            op[marg] = sig((op[a] * op[b]) ** 0.5, 10)
            op[yint] = op[amt] * 2
        elif k == "lowcap":
            if not op[amt]:
                op[amt] = 1
            op.pop(marg, None)
            op[yint] = sig(op[amt] * self.pick((0, 0.5, 0.999)), 8)
        elif k == "negative":
            op[amt] = -sig(abs(op[amt] or 1) * self.pick((1, 1e-3)), 8)
        else:
            op["tkn"] = self.pick(("DOGE", ""))
        op["invalid"] = k
        return op

    def op_del(self, sim):
        r = self.r
        if r.random() < 0.12:
            return {"op": "del", "sim": sim, "id": self.pick((999, -1, 12345)), "client": "lp0"}
        return {"op": "del", "sim": sim, "k": r.randrange(64), "client": f"lp{r.randrange(self.clients)}"}

    def op_state(self, sim):
        r = self.r
        op = {"op": "state", "sim": sim}
        if r.random() < 0.3:
            op["pair"] = self.pick(self.pairs).replace("/", "")
            if r.random() < 0.25:
                op["aslist"] = True
        if r.random() < 0.3:
            op["hist"] = False
        return op

    def op_liq(self, sim):
        return {"op": "liq", "sim": sim, "df": self.r.random() < 0.3}

    def op_bad(self, sim):
        r = self.r
        pair = self.pick(self.pairs)
        rp = R.RefPair(pair)
        k = self.pick(("badtkn", "badpair", "zero", "nan", "str", "none", "inpair", "bothlim", "price1",
                       "margboth", "yintlow", "zerolim", "neg_price", "negamt", "badpair2", "yintlow2",
                       "price1b", "unhash", "huge", "limneg", "zprice"))
        return {"op": "bad", "sim": sim, "kind": k, "pair": pair, "tkn": self.pick((rp.b, rp.q)),
                "client": "x", "side": self.pick(("buy", "sell"))}

    def program(self):
        r = self.r
        cfg = self.config()
        ops = []
        for s in range(self.nsims):
            for _ in range(r.randint(*self.setup)):
                ops.append(self.add(s))
        n = r.randint(*self.nops)
        for _ in range(n):
            ops.append(self.one(r.randrange(self.nsims)))
        return {"family": "book", "config": cfg, "ops": ops}


# ------------------------------------------------------------------ execution
def snap(sim):
    out = {}
    for k, o in sim.orders.items():
        out[k] = (o.y, o.y_int, o.p_high, o.p_low, o.disabled, o.tkn, o.pair_name, o.linked_to_id,
                  o.carbon_id, o.id)
    return out


Y, Z, PH, PL, DIS, TKN, PN, LINK, CID, OID = range(10)


def rows_of(trades, uids):
    return [{k: v[0] for k, v in trades[u].items()} for u in uids]


class Event:
    __slots__ = ("i", "op", "sim", "sx", "pre", "post", "pre_uids", "pre_num", "post_num", "rows",
                 "new_uids", "gone_uids", "res", "exc", "fired", "elig", "amt", "by_target", "sold",
                 "bought", "pair", "ref", "limit_price", "limit_amt", "quote", "steps", "args",
                 "frame", "del_id", "rowhash_ok")

    def __init__(self):
        for s in self.__slots__:
            setattr(self, s, None)

    @property
    def ok(self):
        """the operation reported success to its caller"""
        if self.exc is not None:
            return False
        r = self.res
        if self.op["op"] == "del":
            return bool(r)
        if isinstance(r, dict) and "success" in r:
            return bool(r["success"])
        return True

    @property
    def executed(self):
        return any(x["exec"] for x in self.rows or ())


def fl(x):
    return float(x)


def close(a, b, rel=1e-9, abs_=1e-9):
    a, b = float(a), float(b)
    if a == b:
        return True
    return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))


class BookRun:
    def __init__(self, program, oracle, budget=None, own_stdout=True, pairs=None):
        self.p = program
        self.own_stdout = own_stdout
        self.last = None
        self.oracle = oracle
        self.res = Result()
        self.budget = budget
        self.sims = []
        share = program["config"].get("sharepair")
        self.pairs = pairs if pairs is not None else {}     # CarbonPair objects used by several simulators
        for c in program["config"]["sims"]:
            if share and c["pair"]:
                c = dict(c, pair=self.pairs.setdefault(c["pair"], CarbonPair(c["pair"])))
            self.sims.append(self.make_sim(c))
        self.hist = []

    @staticmethod
    def make_sim(c):
        so = sys.stdout
        sys.stdout = NullOut()
        try:
            return BookRun._make_sim(c)
        finally:
            sys.stdout = so

    @staticmethod
    def _make_sim(c):
        return CarbonSimulatorUI(pair=c["pair"], matching_method=c["mm"], raiseonerror=c["raise"],
                                 verbose=c["verbose"], debug=c.get("debug", False))

    def mm(self, sx):
        return self.p["config"]["sims"][sx]["mm"]

    # ---- one operation -> a zero-argument callable
    def bind(self, ev):
        op, sim = ev.op, ev.sim
        kind = op["op"]
        cfg = self.p["config"]["sims"][ev.sx]
        pair = op.get("pair")
        pairarg = None if (pair and cfg["pair"] == pair and len(pair) % 2 == 0) else pair
        if kind == "add":
            kw = dict(tkn=op["tkn"], amt_sell=op["amt_sell"], psell_start=op["ps"], psell_end=op["pe"],
                      amt_buy=op["amt_buy"], pbuy_start=op["bs"], pbuy_end=op["be"], pair=pairarg)
            for a, b in (("marg_sell", "psell_marginal"), ("marg_buy", "pbuy_marginal"),
                         ("yint_sell", "y_int_sell"), ("yint_buy", "y_int_buy"), ("cid", "carbon_id")):
                if a in op:
                    kw[b] = op[a]
            ev.args = kw
            if "sdk" in op:
                d = sdk_strategy(op)
                ev.args = {"sdkStrategy": d, "nsd": op["sdk"]["nsd"]}
                return lambda: sim.add_fromsdk(d, op["sdk"]["nsd"])
            return lambda: sim.add_strategy(**kw)
        if kind == "order":
            kw = dict(tkn=op["tkn"], amt=op["amt"], p_start=op["ps"], p_end=op["pe"], pair=pairarg)
            if "marg" in op:
                kw["p_marginal"] = op["marg"]
            if "yint" in op:
                kw["y_int"] = op["yint"]
            ev.args = kw
            return lambda: sim.add_order(**kw)
        if kind == "del":
            ids = sorted(sim.orders)
            if "id" in op:
                i = op["id"]
            elif ids:
                i = ids[op["k"] % len(ids)]
            else:
                i = 0
            ev.del_id = i
            f = sim.delete_strategy if op.get("alias") else sim.delete_order
            return lambda: f(i)
        if kind == "state":
            kw = {}
            if "pair" in op:
                kw["pair"] = [op["pair"]] if op.get("aslist") else op["pair"]
            if "hist" in op:
                kw["inclhistory"] = op["hist"]
            return lambda: sim.state(**kw)
        if kind == "liq":
            return (lambda: sim.liquidity(sim.ASDF)) if op.get("df") else (lambda: sim.liquidity())
        if kind == "bad":
            return self.bind_bad(ev, pairarg)
        if kind == "trade":
            return self.bind_trade(ev, pairarg)
        raise HarnessError(kind)

    def eligible(self, sim, pair, sold, use):
        rp = R.RefPair(pair)
        names = (rp.b + rp.q, rp.q + rp.b)
        out = []
        for k, o in sim.orders.items():
            if o.tkn == sold and not o.disabled and o.y > 0 and o.pair_name in names \
                    and o.pair.other(sold) == rp.other(sold):
                if use is None or k in use:
                    out.append(k)
        return out

    def bind_trade(self, ev, pairarg):
        op, sim = ev.op, ev.sim
        rp = R.RefPair(op["pair"])
        ev.pair = rp
        tkn = op["tkn"]
        ev.by_target = op["side"] == "buy"
        ev.sold = tkn if ev.by_target else rp.other(tkn)      # token the AMM sells
        ev.bought = rp.other(ev.sold)
        use = None
        ids = sorted(sim.orders)
        u = op.get("use")
        if u is not None:
            base = self.eligible(sim, op["pair"], ev.sold, None)
            if u == "half":
                use = base[::2]
            elif u == "one":
                use = base[-1:]
            elif u == "none":
                use = []
            elif u == "bogus":
                use = base[:1] + [777, -5]
            elif u == "all":
                use = ids
            elif u == "other":
                use = [i for i in ids if i not in base] + base[1:]
            elif isinstance(u, list):
                use = u
        ev.elig = self.eligible(sim, op["pair"], ev.sold, use)
        curves = [(sim.orders[k].y, sim.orders[k].y_int, sim.orders[k].p_low, sim.orders[k].p_high)
                  for k in ev.elig]
        cap_y, cap_x = R.capacity(curves) if curves else (0.0, 0.0)
        if "amt" in op:
            amt = op["amt"]
        else:
            base = cap_y if ev.by_target else cap_x
            if base <= 0:
                base = 1.0
            amt = sig(base * op["frac"], 8)
            if op["frac"] == 1.0 and ev.by_target:
                amt = base       # exactly everything
            if amt == 0:
                amt = 1e-6
        ev.amt = amt
        ev.ref = (curves, cap_y, cap_x)
        kw = dict(pair=pairarg)
        if use is not None:
            kw["use_positions"] = use
        if "execute" in op:
            kw["execute"] = op["execute"]
        if op.get("partial"):
            kw["support_partial"] = True
        if "thr" in op:
            kw["threshold_orders"] = op["thr"]
        lim = op.get("limit")
        if lim and curves:
            if ev.by_target:
                d = min(float(amt), cap_y)
                rdx = R.optimal(curves, dy=d)
                rdy = d
            else:
                d = min(float(amt), cap_x)
                rdy = R.optimal(curves, dx=d)
                rdx = d
            if rdx and rdy:
                rel = lim["rel"]
                # price trader pays, in pair convention
                p = rdx / rdy if ev.sold == rp.b else rdy / rdx
                if lim["kind"] == "price":
                    kw["limit_price"] = p * (1 + rel) if ev.sold == rp.b else p / (1 + rel)
                    ev.limit_price = kw["limit_price"]
                else:
                    kw["limit_amt"] = (rdx * (1 + rel)) if ev.by_target else rdy / (1 + rel)
                    ev.limit_amt = kw["limit_amt"]
        ev.args = kw
        a = amt
        if op.get("neg"):
            f = sim.amm_buys if ev.by_target else sim.amm_sells
            a = -amt
        elif op.get("alias"):
            f = sim.trader_buys if ev.by_target else sim.trader_sells
        else:
            f = sim.amm_sells if ev.by_target else sim.amm_buys
        if op.get("quote_first"):
            kq = {k: v for k, v in kw.items() if k not in ("execute", "limit_price", "limit_amt")}

            def both():
                try:
                    q = f(tkn, a, execute=False, **kq)
                    ev.quote = q
                except Exception as e:
                    ev.quote = {"success": False, "exception": e}
                ev.pre_uids = list(sim.trades)
                ev.pre_num = sim.numtrades
                return f(tkn, a, **kw)
            return both
        return lambda: f(tkn, a, **kw)

    def bind_bad(self, ev, pairarg):
        op, sim = ev.op, ev.sim
        k, t = op["kind"], op["tkn"]
        f = sim.amm_sells if op["side"] == "buy" else sim.amm_buys
        rp = R.RefPair(op["pair"])
        mid = MIDS[op["pair"]]
        P = op["pair"]
        add = sim.add_strategy
        table = {
            "badtkn": lambda: f("DOGE", 1, pair=P),
            "badpair": lambda: f(t, 1, pair="FOO/BAR"),
            "badpair2": lambda: f(t, 1, pair="FOOBAR"),
            "zero": lambda: f(t, 0, pair=P),
            "nan": lambda: f(t, float("nan"), pair=P),
            "str": lambda: f(t, "abc", pair=P),
            "none": lambda: f(t, None, pair=P),
            "inpair": lambda: f(t, 1e-3, pair=P, inpair=False),
            "bothlim": lambda: f(t, 1e-3, pair=P, limit_price=mid, limit_amt=1),
            "zerolim": lambda: f(t, 1e-3, pair=P, limit_amt=0),
            "limneg": lambda: f(t, 1e-3, pair=P, limit_price="x"),
            "huge": lambda: f(t, 1e30, pair=P),
            "negamt": lambda: add(t, -1, mid * 1.1, mid * 1.2, 5, mid * .9, mid * .8, pair=P),
            "price1": lambda: add(rp.b, 1, mid * 1.1, None, 5, mid * .9, mid * .8, pair=P),
            "price1b": lambda: add(rp.b, 1, mid * 1.1, mid * 1.2, 5, None, mid * .8, pair=P),
            "margboth": lambda: add(rp.b, 1, mid * 1.1, mid * 1.2, 5, mid * .9, mid * .8, pair=P,
                                    pbuy_marginal=mid * .85, y_int_buy=10),
            "yintlow": lambda: add(rp.b, 1, mid * 1.1, mid * 1.2, 5, mid * .9, mid * .8, pair=P, y_int_sell=0.5),
            "yintlow2": lambda: add(rp.b, 1, mid * 1.1, mid * 1.2, 5, mid * .9, mid * .8, pair=P, y_int_buy=0.5),
            "neg_price": lambda: add(rp.b, 1, mid * 1.1, mid * 1.2, 5, -mid * .9, -mid * .8, pair=P),
            "zprice": lambda: add(rp.b, 1, mid * 1.1, mid * 1.2, "x", mid * .9, mid * .8, pair=P),
            "sdk_empty": lambda: sim.add_fromsdk({}),
            "sdk_none": lambda: sim.add_fromsdk(None),
            "sdk_tokens": lambda: sim.add_fromsdk(sdk_strategy({"pair": P, "ps": mid * 1.1, "pe": mid * 1.2, "bs": mid * .9, "be": mid * .8,
                                                                "amt_sell": 1, "amt_buy": 1, "sdk": {"id": 7, "y": [1, 1], "z": [2, 2], "swap": False,
                                                                                                     "spoil": "tokens"}})),
            "unhash": lambda: sim.delete_order([]) if False else sim.delete_order("no such id"),
        }
        return table[k]

    # ---- run
    def call(self, ev, fn):
        op = ev.op
        fault = op.get("fault")
        so = sys.stdout
        out = NullOut()
        if fault and fault["kind"] == "stdout":
            out = NullOut(break_at=fault["at"], exc=fault["exc"])
        if self.own_stdout:
            sys.stdout = out
        tr = None
        try:
            if fault and fault["kind"] == "line":
                tr = Tracer(at=fault["at"], exc=fault["exc"])
                with tr:
                    ev.res = fn()
            elif self.budget:
                tr = Tracer(budget=self.budget)
                with tr:
                    ev.res = fn()
            elif op.get("record"):
                tr = Tracer(record=True)
                with tr:
                    ev.res = fn()
            else:
                ev.res = fn()
        except (Exception, KeyboardInterrupt, SystemExit, StepBudget) as e:
            ev.exc = e
        finally:
            if self.own_stdout:
                sys.stdout = so
        if tr is not None:
            ev.fired = tr.fired
            ev.steps = tr.n
            if op.get("record"):
                ev.frame = tr.sites
        if fault and fault["kind"] == "stdout" and out.fired:
            ev.fired = ("stdout", "write", fault["at"])
        if ev.fired:
            self.res.faults[f"{fault['kind']}:{fault['exc']}"] += 1

    def run(self):
        res = self.res
        for i, op in enumerate(self.p["ops"]):
            ev = Event()
            ev.i, ev.op, ev.sx = i, op, op["sim"]
            ev.sim = self.sims[op["sim"]]
            ev.pre = snap(ev.sim)
            ev.pre_uids = list(ev.sim.trades)
            ev.pre_num = ev.sim.numtrades
            self.last = ev
            try:
                fn = self.bind(ev)
            except (ZeroDivisionError, OverflowError, ValueError, ArithmeticError) as e:
                res.stats["unbound"] += 1
                res.trace.append((i, "unbound", repr(e)[:60]))
                continue
            self.oracle.before(self, ev)
            self.call(ev, fn)
            sim = ev.sim
            ev.post = snap(sim)
            ev.post_num = sim.numtrades
            pu = set(ev.pre_uids)
            ev.new_uids = [u for u in sim.trades if u not in pu]
            ev.gone_uids = [u for u in pu if u not in sim.trades]
            ev.rows = rows_of(sim.trades, ev.new_uids)
            kind = op["op"]
            res.stats[kind] += 1
            if kind == "trade":
                res.stats["trade:" + ("exec" if ev.ok and ev.executed else "quote" if ev.ok else "refused")] += 1
                if ev.ok and ev.executed:
                    res.nontrivial = True
            res.simtime += 1
            res.states.add(h8(sorted((k, f"{float(v[Y]):.6g}", f"{float(v[Z]):.6g}") for k, v in ev.post.items())))
            res.trace.append((i, kind, op.get("side"), ev.ok, type(ev.exc).__name__ if ev.exc else
                              (ev.res.get("error", "")[:60] if isinstance(ev.res, dict) and not ev.ok else ""),
                              ev.fired, [(u, str(r["amt1"]), str(r["amt2"])) for u, r in zip(ev.new_uids, ev.rows)],
                              [(k, str(v[Y])[:24]) for k, v in sorted(ev.post.items())]))
            self.oracle.after(self, ev)
            if res.violations:
                break
        res.inter.add(h8([(o["op"], o["sim"], o.get("client"), o.get("side"), o.get("fault")) for o in self.p["ops"]]))
        self.oracle.end(self)
        return res


class Oracle:
    """base: hooks called by BookRun"""

    def before(self, run, ev):
        pass

    def after(self, run, ev):
        pass

    def end(self, run):
        pass


# ------------------------------------------------------------------ shared helpers
def same_book(a, b):
    """first difference between two snapshots, or None"""
    if list(a) != list(b) and set(a) != set(b):
        return f"order ids {sorted(a)} -> {sorted(b)}"
    for k in a:
        if a[k] != b[k]:
            for j in range(len(a[k])):
                if a[k][j] != b[k][j]:
                    return (f"order {k}: {'y yint p_high p_low disabled tkn pair link cid id'.split()[j]} "
                            f"{a[k][j]} -> {b[k][j]}")
    return None


def apply_rows(pre, rows):
    """expected book after executing the given route rows; returns snapshot-like dict or error string"""
    cur = {k: list(v) for k, v in pre.items()}
    for r in rows:
        if r["aggr"] or not r["exec"]:
            continue
        k = r["routeix"]
        if k not in cur:
            return f"route names order {k}, not in the book"
        o = cur[k]
        o[Y] = R.D(o[Y]) - Decimal(r["amt1"])
        l = o[LINK]
        if l != k:
            if l not in cur:
                return f"linked order {l} of {k} is missing"
            lo = cur[l]
            lo[Y] = R.D(lo[Y]) + Decimal(r["amt2"])
            if lo[Y] > lo[Z]:
                lo[Z] = lo[Y]
    return cur


def diff_books(want, got, rel=1e-10, abs_=2e-11):
    """first difference beyond ledger rounding"""
    if set(want) != set(got):
        return f"order ids: expected {sorted(want)}, found {sorted(got)}"
    for k in want:
        w, g = want[k], got[k]
        for j in (Y, Z):
            if not close(w[j], g[j], rel, abs_):
                return (f"order {k} ({g[TKN]}): {'balance' if j == Y else 'capacity'} expected "
                        f"{float(w[j])!r}, found {float(g[j])!r}")
        for j in (PH, PL, DIS, TKN, PN, LINK, CID, OID):
            if w[j] != g[j]:
                return f"order {k}: {'y yint p_high p_low disabled tkn pair link cid id'.split()[j]} changed {w[j]} -> {g[j]}"
    return None


def agg_row(rows):
    a = [r for r in rows if r["aggr"]]
    return a[0] if len(a) == 1 else None


def routes(rows):
    return [r for r in rows if not r["aggr"]]
