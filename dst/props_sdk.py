"""
C20-C25: the Carbon SDK as a distributed system - several real Python clients, the real
Node server, a simulated network and chain (see sdkworld.py).

C20 no failed or disturbed call is mistaken for a result
C21 calls go where the client was configured to send them, carry exactly what the caller
    asked for, and act at most once
C22 asynchronous results reach the call that asked for them
C23 nothing without the token
C24 one reply per request; the server survives failing calls
C25 the m-layer acts on the pair, side and amounts the user named
"""
import collections
import copy
import json
import math

from . import boot
from .core import Scenario, Result, HarnessError, h8
from .fault import NullOut
from .sdkworld import World, ServerBroken, PRE_FAULTS, POST_FAULTS, WALLET

REAL = ["carbon.sdk (SDKBase, CarbonSDK0, CarbonSDK, SDKToken, TokenContainer)", "carbon.pair", "requests (real library "
        "above the transport adapter)", "resources/sdk/server/sdkserver.mjs, sdkserver_dispatch.mjs, "
        "sdkserver_testlib.mjs (unmodified, under Node)"]
STUB = ["HTTP transport (simulated network)", "express/body-parser routing (4.18 semantics)",
        "@bancor/carbon-sdk and ethers (answers chosen by the simulator)", "wall clock, timers, Math.random, crypto"]
ASSUME = ["TCP-level duplication of a request does not occur (HTTP clients do not resend a POST)",
          "express delivers one handler invocation per request and does not await async handlers (express 4)"]

PORTS = {3118: "carbontoken", 4020: "s3cr3t-Tok"}

ADDR = {
    "ETH": "0xeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeee", "USDC": "0xa0b86991c6218b36c1d19d4a2e9eb0ce3606eb48",
    "WBTC": "0x2260fac5e5542a773aa44fbcfedf7c193bc2c599", "BNT": "0x1f573d6fb3f13d689ff844b4ce37794d79a7ff1c",
    "DAI": "0x6b175474e89094c44da98b954eedeac495271d0f", "LINK": "0x514910771af9ca656af840dff83e8264ecf986ca",
}
DEC = {"ETH": 18, "USDC": 6, "WBTC": 8, "BNT": 18, "DAI": 18, "LINK": 18}
TK = sorted(ADDR)
# a client's own token list: one token at another address (another chain), one the built-in list does not know, one missing
OWN = dict(ADDR, BNT="0x00000000000000000000000000000000000b2b17", FOO="0x0000000000000000000000000000000000000f00")
del OWN["LINK"]
OWNDEC = dict(DEC, FOO=9)
KNOWN = {"global": ADDR, "own": OWN, "none": {}}


def lower(x):
    if isinstance(x, str):
        return x.lower()
    if isinstance(x, list):
        return [lower(v) for v in x]
    if isinstance(x, dict):
        return {k: lower(v) for k, v in x.items()}
    return x


def bn(i):
    return {"type": "BigNumber", "hex": hex(i)}


# ------------------------------------------------------------------ what each client method promises
def own_tokens():
    from carbon.sdk.sdktoken import TokenContainer
    return TokenContainer.fromlist([(t, a.upper().replace("0X", "0x"), OWNDEC[t]) for t, a in OWN.items()])


def pairs_call(s, T, a):
    r = s.pairs(inclstr=a[1]) if a[1] else s.pairs()
    return json.loads(json.dumps(r, default=lambda t: [t.T, t.a, t.d]))


def pairs_expect(a, v):
    raw = v[0]
    if a[0] == "none":
        return raw
    known = {x: t for t, x in KNOWN[a[0]].items()}
    dec = OWNDEC if a[0] == "own" else DEC
    tok = lambda x: [known[x.lower()], x.lower(), dec[known[x.lower()]]] if x.lower() in known else x.lower()
    name = lambda x: known.get(x.lower(), x.lower())
    out = [[tok(x), tok(y)] for x, y in raw]
    return [out, ", ".join(f"{name(x)}/{name(y)}" for x, y in raw)] if a[1] else out


def pairs_back(r, a):
    al = sorted(set(ADDR.values()) | set(OWN.values()) | {"0x" + "%040x" % 0xdead})
    return [[x.upper().replace("0X", "0x") if r.random() < .7 else x for x in r.sample(al, 2)] for _ in range(r.randint(0, 4))]


class M:
    """one client method: how to call it, what reaches the back end, what comes back"""

    def __init__(self, gen, call, back, bname, bargs, expect, sync=False, ncalls=None, kind="data"):
        self.gen, self.call, self.back, self.bname = gen, call, back, bname
        self.bargs, self.expect, self.sync, self.ncalls, self.kind = bargs, expect, sync, ncalls, kind


def two(rng):
    a, b = rng.sample(TK, 2)
    return [a, b]


def uniq(rng):
    return f"{rng.randint(1, 999999)}.{rng.randint(0, 999999):06d}"


def tx(rng):
    return {"to": "0x" + "%040x" % rng.getrandbits(160), "data": "0x" + "%016x" % rng.getrandbits(64),
            "gasLimit": bn(rng.randint(21000, 10 ** 9)), "nonce": rng.randint(0, 99)}


def acts(rng):
    return [{"strategyId": rng.choice([rng.randint(1, 2 ** 140), rng.randint(1, 300)]), "amount": rng.choice([rng.randint(1, 10 ** 24), rng.randint(1, 999)])}
            for _ in range(rng.randint(0, 3))]


def sacts(a):
    return [{k: str(v) for k, v in d.items()} for d in a]


def ov(rng):
    return rng.choice([None, None, {"gasLimit": rng.randint(10 ** 5, 10 ** 7)}, {"nonce": rng.randint(1, 9)}])


def eov(o):
    o = dict(o or {})
    o.setdefault("gasLimit", 999999999)
    return o


def flt(s):
    return float(s)


MAXDL = str(2 ** 32 - 1)
A = ADDR
METHODS = {
    "getLiquidityByPair": M(two, lambda s, T, a: s.getLiquidityByPair(A[a[0]], A[a[1]]), lambda r, a: uniq(r),
                            "sdk.getLiquidityByPair", lambda a: [A[a[0]], A[a[1]]], lambda a, v: flt(v[0])),
    "getMinRateByPair": M(two, lambda s, T, a: s.getMinRateByPair(A[a[0]], A[a[1]]), lambda r, a: uniq(r),
                          "sdk.getMinRateByPair", lambda a: [A[a[0]], A[a[1]]], lambda a, v: flt(v[0])),
    "getMaxRateByPair": M(two, lambda s, T, a: s.getMaxRateByPair(A[a[0]], A[a[1]]), lambda r, a: uniq(r),
                          "sdk.getMaxRateByPair", lambda a: [A[a[0]], A[a[1]]], lambda a, v: flt(v[0])),
    "depth1": M(lambda r: two(r) + [r.choice([1, 2.5, 1800, 0.0003])],
                lambda s, T, a: s.getRateLiquidityDepthByPair(A[a[0]], A[a[1]], a[2]), lambda r, a: uniq(r),
                "sdk.getRateLiquidityDepthByPair", lambda a: [A[a[0]], A[a[1]], str(a[2])], lambda a, v: flt(v[0])),
    "depthn": M(lambda r: two(r) + [[r.choice([1, 2.5, 1800, 0.0003, 77]) + i for i in range(r.randint(1, 4))]],
                lambda s, T, a: s.getRateLiquidityDepthByPair(A[a[0]], A[a[1]], list(a[2])), lambda r, a: uniq(r),
                "sdk.getRateLiquidityDepthByPair", lambda a: [[A[a[0]], A[a[1]], str(x)] for x in a[2]],
                lambda a, v: [flt(x) for x in v], ncalls=lambda a: len(a[2])),
    "getUserStrategies": M(lambda r: ["0x%040x" % r.getrandbits(160)], lambda s, T, a: s.getUserStrategies(a[0]),
                           lambda r, a: [{"id": bn(r.getrandbits(40)), "n": uniq(r)} for _ in range(r.randint(0, 3))],
                           "sdk.getUserStrategies", lambda a: [a[0]], lambda a, v: v[0]),
    "getTradeData": M(lambda r: two(r) + [r.choice([1, 2.5, 100]), r.random() < .5],
                      lambda s, T, a: s.getTradeData(A[a[0]], A[a[1]], a[2], a[3]),
                      lambda r, a: {"totalSourceAmount": uniq(r), "totalTargetAmount": uniq(r)},
                      "sdk.getTradeData", lambda a: [A[a[0]], A[a[1]], str(a[2]), a[3], []], lambda a, v: v[0]),
    "composeByTarget": M(lambda r: two(r) + [acts(r), r.choice([None, 1234567]), r.choice([None, 17.25, 0]), ov(r)],
                         lambda s, T, a: s.composeTradeByTargetTransaction(A[a[0]], A[a[1]], a[2], deadline=a[3],
                                                                           maxInput=a[4], overrides=a[5]),
                         lambda r, a: tx(r), "sdk.composeTradeByTargetTransaction",
                         lambda a: [A[a[0]], A[a[1]], sacts(a[2]), MAXDL if a[3] is None else str(a[3]),
                                    str(2 ** 128 - 1) if a[4] is None else str(a[4]), eov(a[5])], lambda a, v: v[0]),
    "composeBySource": M(lambda r: two(r) + [acts(r), r.choice([None, 1234567]), r.choice([None, 17.25, 0]), ov(r)],
                         lambda s, T, a: s.composeTradeBySourceTransaction(A[a[0]], A[a[1]], a[2], deadline=a[3],
                                                                           minReturn=a[4], overrides=a[5]),
                         lambda r, a: tx(r), "sdk.composeTradeBySourceTransaction",
                         lambda a: [A[a[0]], A[a[1]], sacts(a[2]), MAXDL if a[3] is None else str(a[3]),
                                    "1" if a[4] is None else str(a[4]), eov(a[5])], lambda a, v: v[0]),
    "createBuySell": M(lambda r: two(r) + [r.choice([1.5, 100]), 200, 7, 300, r.choice([400, 555.5]), r.choice([1, 0.25]), ov(r)],
                       lambda s, T, a: s.createBuySellStrategy(A[a[0]], A[a[1]], a[2], a[3], a[4], a[5], a[6], a[7], a[8]),
                       lambda r, a: tx(r), "sdk.createBuySellStrategy",
                       lambda a: [A[a[0]], A[a[1]]] + [str(x) for x in a[2:8]] + [eov(a[8])], lambda a, v: v[0]),
    "deleteStrategy": M(lambda r: [r.randint(1, 2 ** 140), ov(r)], lambda s, T, a: s.deleteStrategy(a[0], overrides=a[1]),
                        lambda r, a: tx(r), "sdk.deleteStrategy", lambda a: [str(a[0]), eov(a[1])], lambda a, v: v[0]),
    "hasLiquidity": M(two, lambda s, T, a: s.hasLiquidityByPair(A[a[0]], A[a[1]]), lambda r, a: r.random() < .5,
                      "sdk.hasLiquidityByPair", lambda a: [A[a[0]], A[a[1]]], lambda a, v: v[0], sync=True),
    "hasLiquidityN": M(lambda r: [[two(r) for _ in range(r.randint(0, 3))]],
                       lambda s, T, a: s.hasLiquidityByPair(pairs=[{"sourceToken": A[x], "targetToken": A[y]} for x, y in a[0]]),
                       lambda r, a: r.random() < .5, "sdk.hasLiquidityByPair", lambda a: [[A[x], A[y]] for x, y in a[0]],
                       lambda a, v: list(v), sync=True, ncalls=lambda a: len(a[0])),
    "pairs": M(lambda r: [None, r.random() < .5], pairs_call, pairs_back, "sdk.pairs", lambda a: [], pairs_expect, sync=True),
    "balance": M(lambda r: [r.sample(TK, r.randint(1, 3)), "0x%040x" % r.getrandbits(160)],
                 lambda s, T, a: s.getERC20Balance([T[t] for t in a[0]], a[1]), lambda r, a: bn(r.randint(0, 10 ** 22)),
                 "erc20.balanceOf", lambda a: [[A[t], a[1]] for t in a[0]],
                 lambda a, v: {t: int(x["hex"], 16) / 10 ** DEC[t] for t, x in zip(a[0], v)}, ncalls=lambda a: len(a[0])),
    "decimals": M(lambda r: [r.sample(TK, r.randint(1, 3))], lambda s, T, a: s.getERC20Decimals([T[t] for t in a[0]]),
                  lambda r, a: r.randint(0, 18), "erc20.decimals", lambda a: [[A[t]] for t in a[0]],
                  lambda a, v: dict(zip(a[0], v)), ncalls=lambda a: len(a[0])),
    "symbol": M(lambda r: [r.sample(TK, r.randint(1, 3))], lambda s, T, a: s.getERC20Symbol([T[t] for t in a[0]]),
                lambda r, a: "S%06d" % r.choice([111111, 222222, r.randint(0, 999999)]), "erc20.symbol", lambda a: [[A[t]] for t in a[0]],
                lambda a, v: dict(zip(a[0], v)), ncalls=lambda a: len(a[0])),
    "signsubmit": M(lambda r: [tx(r), r.random() < .5], lambda s, T, a: s.signsubmittx(a[0], sign=a[1]),
                    lambda r, a: {"hash": "0x%064x" % r.getrandbits(256)}, "signer.sendTransaction", lambda a: [a[0]],
                    lambda a, v: {"txReceipt": v[0]}, kind="submit"),
    "matchparams": M(lambda r: two(r) + [r.choice([1, 2.5]), r.random() < .5],
                     lambda s, T, a: s.getMatchParams(A[a[0]], A[a[1]], a[2], a[3], sync=True),
                     lambda r, a: {"amountWei": uniq(r)}, "sdk.getMatchParams",
                     lambda a: [A[a[0]], A[a[1]], str(a[2]), a[3]], lambda a, v: v[0], kind="resp"),
    "addr": M(lambda r: [], lambda s, T, a: s.addr(), None, None, None, lambda a, v: WALLET, kind="plain"),
    "qplus": M(lambda r: [r.randint(1, 10 ** 6), r.randint(1, 10 ** 6)], lambda s, T, a: s.qplus(a[0], a[1], sync=True), None,
               None, None, lambda a, v: {"func": "qplus", "a": a[0], "b": a[1], "result": a[0] + a[1]}, kind="resp"),
    "mul": M(lambda r: [r.randint(1, 10 ** 6), r.randint(1, 1000)], lambda s, T, a: s.mul(a[0], a[1], sync=True), None,
             None, None, lambda a, v: {"func": "mul", "a": a[0], "b": a[1], "result": a[0] * a[1]}, kind="resp"),
}
# asynchronous use of the same end points
ASYNC = {
    "aplus": M(lambda r: [r.randint(1, 10 ** 6), r.randint(1, 10 ** 6)], lambda s, T, a, y: s.plus(a[0], a[1], sync=y), None,
               None, None, lambda a, v: {"func": "plus", "a": a[0], "b": a[1], "result": a[0] + a[1]}, kind="timer"),
    "aqmul": M(lambda r: [r.randint(1, 10 ** 6), r.randint(1, 1000)], lambda s, T, a, y: s.qmul(a[0], a[1], sync=y), None,
               None, None, lambda a, v: {"func": "qmul", "a": a[0], "b": a[1], "result": a[0] * a[1]}, kind="now"),
    "amatchparams": M(lambda r: two(r) + [r.choice([1, 2.5]), r.random() < .5],
                      lambda s, T, a, y: s.getMatchParams(A[a[0]], A[a[1]], a[2], a[3], sync=y),
                      lambda r, a: {"amountWei": uniq(r)}, "sdk.getMatchParams",
                      lambda a: [A[a[0]], A[a[1]], str(a[2]), a[3]], lambda a, v: v[0]),
    "aactions": M(lambda r: two(r) + [r.random() < .5, acts(r)],
                  lambda s, T, a, y: s.getTradeDataFromActions(A[a[0]], A[a[1]], a[2], a[3], sync=y),
                  lambda r, a: {"effectiveRate": uniq(r)}, "sdk.getTradeDataFromActions",
                  lambda a: [A[a[0]], A[a[1]], a[2], sacts(a[3])], lambda a, v: v[0]),
    "aliq": M(two, lambda s, T, a, y: s.call("get_liquidity_by_pair", {"sourceToken": A[a[0]], "targetToken": A[a[1]]}, sync=y),
              lambda r, a: uniq(r), "sdk.getLiquidityByPair", lambda a: [A[a[0]], A[a[1]]], lambda a, v: v[0]),
    "adepthn": M(lambda r: two(r) + [[r.choice([1, 2.5, 77]) + i for i in range(r.randint(1, 3))]],
                 lambda s, T, a, y: s.call("get_rate_liquidity_depth_by_pair", {
                     "sourceToken": A[a[0]], "targetToken": A[a[1]], "rate": [str(x) for x in a[2]]}, sync=y),
                 lambda r, a: uniq(r), "sdk.getRateLiquidityDepthByPair",
                 lambda a: [[A[a[0]], A[a[1]], str(x)] for x in a[2]], lambda a, v: list(v), ncalls=lambda a: len(a[2])),
    "abad": M(two, lambda s, T, a, y: s.call("get_liquidity_by_pair", {"sourceToken": "nonsense", "targetToken": A[a[1]]}, sync=y),
              None, None, None, lambda a, v: None, kind="bad"),
}


# ------------------------------------------------------------------ program generation
def gen_http(rng, pf, faults):
    p = {"lat": rng.choice([1, 1, 1, 2, 5, 20]), "rlat": rng.choice([1, 1, 2, 5, 20])}
    if faults and rng.random() < pf:
        p["fault"] = rng.choice(faults)
        if p["fault"].startswith("cut"):
            p["cutat"] = rng.choice([0.05, 0.3, 0.5, 0.7, 0.9])
    return p


def gen_back(rng, m, a, pfail):
    n = (m.ncalls(a) if m.ncalls else 1) if m.back else 0
    out = []
    for _ in range(n):
        d = {"ok": rng.random() >= pfail, "delay": rng.choice([0, 1, 1, 2, 10, 200])}
        if d["ok"]:
            d["value"] = m.back(rng, a)
        else:
            d["err"] = rng.choice(["call revert exception", "insufficient funds", "timeout", "missing response", "reverted", "nonce has already "
                                   "been used", "network changed", "rejected transaction"]) \
                + f" {rng.randint(0, 9999)}"
        out.append(d)
    return out


class Client:
    """one user program: performs its operations one after the other"""

    def __init__(self, ix, scn, sdk, T, ops, res, cfg):
        self.ix, self.scn, self.sdk, self.T, self.ops, self.res, self.cfg = ix, scn, sdk, T, ops, res, cfg
        self.op_ix = None
        self.nreq = 0
        self.plans = None

    def main(self):
        for oi, op in self.ops:
            self.world.sleep(op.get("gap", 0))
            self.op_ix, self.nreq, self.plans = oi, 0, op.get("http") or [{}]
            rec = {"op": oi, "c": self.ix, "t0": self.world.now, "status": None, "value": None, "exc": None,
                   "w0": len(self.world.wires)}
            self.world.records[oi] = rec
            try:
                rec["value"] = self.scn.perform(self, op, rec)
                rec["status"] = "value"
            except Exception as e:
                rec["status"] = "raise"
                rec["exc"] = e
                if isinstance(e, HarnessError):
                    raise
            rec["t1"] = self.world.now
            self.op_ix = None
            rec["wires"] = [w for w in self.world.wires[rec["w0"]:] if w.op == oi]
            self.world.log(f"c{self.ix} op{oi} {op['op']} {op.get('m')} -> {rec['status']} "
                           f"{type(rec['exc']).__name__ if rec['exc'] is not None else h8(brief(rec['value'], self.world))}")


def brief(v, world):
    if hasattr(v, "status_code"):
        return ["resp", v.status_code]
    if not isinstance(v, bool) and v in getattr(world, "reqids", ()):
        return "reqid"
    if isinstance(v, (dict, list, tuple)):
        return json.dumps(v, sort_keys=True, default=str)
    return str(v)


def payload(resp):
    """what a raw Response tells its reader: ("value", data) or ("failed", why)"""
    try:
        if resp.status_code != 200:
            return "failed", f"status {resp.status_code}"
        rj = resp.json()
        if rj.get("success") is not True:
            return "failed", rj
        return "value", rj["data"]
    except Exception as e:
        return "failed", repr(e)


class SdkScenario(Scenario):
    rule = ("a simulated run is non-trivial when at least one client call completed end to end and either a fault, a "
            "back-end failure or two calls in flight at once occurred; distinct interleavings are counted by the order of "
            "deliveries, back-end settlements and completions together with the operation mix")
    real, stub, assumptions = REAL, STUB, ASSUME
    quick_runs = 240
    thorough_runs = 6000
    time_unit = "simulated milliseconds"
    shrink_lists = ("events",)
    faults = PRE_FAULTS + POST_FAULTS
    mix = {"call": 1}
    nops = (4, 12)

    # ---------------------------------------------------------- generation
    def generate(self, rng, tier):
        prof = rng.choice(["clean", "faulty", "faulty", "backend", "crashy", "busy"])
        pf = {"clean": 0, "faulty": .35, "backend": 0, "crashy": .1, "busy": .05}[prof]
        pb = {"clean": 0, "faulty": .1, "backend": .4, "crashy": .1, "busy": .1}[prof]
        nc = rng.choice([1, 2, 2, 3])
        clients = []
        for i in range(nc):
            port = rng.choice([3118, 3118, 4020])
            clients.append({"port": port, "url": rng.choice([f"http://localhost:{port}", f"http://localhost:{port}/",
                                                             f"http://127.0.0.1:{port}"]),
                            "token": PORTS[port], "apibase": rng.choice(["api", "/api", "api/"]),
                            "roe": rng.random() < .7, "syncdefault": rng.choice([None, None, True, False]),
                            "defaults": rng.random() < .3, "verbose": rng.random() < .3})
            clients[-1]["tokens"] = rng.choice(["global", "global", "own", "none"])
            if clients[-1]["defaults"]:
                clients[-1].update(port=3118, url=None, token=None, apibase=None)
        n = rng.randint(*self.nops) + (6 if tier == "thorough" and rng.random() < .4 else 0)
        ops = []
        kinds, wts = zip(*self.mix.items())
        for i in range(n):
            k = rng.choices(kinds, wts)[0]
            c = rng.randrange(nc)
            op = getattr(self, "gen_" + k)(rng, c, clients, pf, pb, ops)
            op["gap"] = 0 if prof == "busy" else rng.choice([0, 0, 1, 3, 10, 300])
            if prof == "busy":
                for h in op.get("http", ()):
                    h["lat"] = 1
            ops.append(op)
        events = []
        if prof == "crashy":
            for _ in range(rng.randint(1, 2)):
                events.append({"t": rng.choice([1, 2, 3, 5, 12, 25, 60, 250, 700]), "kind": "crash",
                               "port": rng.choice(list(PORTS)), "down": rng.choice([1, 5, 50])})
        if rng.random() < .3:
            events.append({"t": rng.choice([2, 10, 60, 300]), "kind": "skew",
                           "by": rng.choice([-3600000, -1000, -5, -1, 5, 60000])})
        return {"seed": rng.getrandbits(24), "profile": prof, "clients": clients, "ops": ops, "events": events}

    def gen_call(self, rng, c, clients, pf, pb, ops, names=None):
        name = rng.choice(names or sorted(METHODS))
        m = METHODS[name]
        a = m.gen(rng)
        if name == "pairs":
            a[0] = clients[c].get("tokens", "global")
        op = {"op": "call", "c": c, "m": name, "a": a, "http": [gen_http(rng, pf, self.faults)], "bk": gen_back(rng, m, a, pb)}
        return op

    def gen_async(self, rng, c, clients, pf, pb, ops):
        name = rng.choice(sorted(ASYNC))
        m = ASYNC[name]
        a = m.gen(rng)
        return {"op": "async", "c": c, "m": name, "a": a, "http": [gen_http(rng, pf, self.faults)],
                "bk": gen_back(rng, m, a, pb), "explicit": rng.random() < .7}

    def gen_poll(self, rng, c, clients, pf, pb, ops):
        asyncs = [i for i, o in enumerate(ops) if o["op"] == "async"]
        ref = rng.choice(asyncs) if asyncs and rng.random() < .95 else None
        return {"op": "poll", "c": c, "ref": ref, "http": [gen_http(rng, pf, self.faults)]}

    def gen_version(self, rng, c, clients, pf, pb, ops):
        return {"op": "version", "c": c, "http": [gen_http(rng, pf, self.faults)]}

    # ---------------------------------------------------------- execution
    def sdk_for(self, cfg):
        from carbon.sdk import CarbonSDK, Tokens
        kw = dict(disclaimer=False, verbose=cfg.get("verbose", False), Tokens=Tokens)
        if cfg.get("tokens") == "own":
            kw["Tokens"] = own_tokens()
        elif cfg.get("tokens") == "none":
            del kw["Tokens"]
        for k, f in (("url", "url"), ("token", "token"), ("apibase", "apibase"), ("syncdefault", "syncdefault"), ("roe", "raiseonerror")):
            if cfg.get(k) is not None:
                kw[f] = cfg[k]
        return CarbonSDK(**kw), Tokens

    def execute(self, p):
        import sys
        res = Result()
        so = sys.stdout
        sys.stdout = NullOut()
        try:
            self.simulate(p, res)
        finally:
            sys.stdout = so
        return res

    def simulate(self, p, res):
        try:
            world = World(res, p["seed"], PORTS, self.backend)
        except ServerBroken as e:
            res.violate("server does not start", str(e)[:600])
            return
        world.program = p
        world.records = {}
        world.reqids = []
        world.asyncid = {}
        world.refusals = 0
        byc = collections.defaultdict(list)
        for i, o in enumerate(p["ops"]):
            byc[o["c"]].append((i, o))
        for ix, cfg in enumerate(p["clients"]):
            if not byc[ix]:
                continue
            sdk, T = self.sdk_for(cfg)
            world.start(Client(ix, self, sdk, T, byc[ix], res, cfg))
        for e in p["events"]:
            if e["kind"] == "crash":
                world.at(e["t"], world.crash, e["port"], e["down"])
            elif e["kind"] == "skew":
                world.at(e["t"], self.skew, world, e["by"])
        try:
            world.run()
        except ServerBroken as e:
            res.violate("server does not start again after a crash", str(e)[:600])
            return
        self.check(world, p, res)
        done = [r for r in world.records.values() if r["status"]]
        res.stats.update(p["ops"][r["op"]]["op"] + ":" + r["status"] for r in done)
        res.nontrivial = bool(any(r["status"] == "value" for r in done) and
                              (sum(res.faults.values()) or self.overlap(world)))
        res.inter.add(h8([world.sched, [(o["op"], o.get("m")) for o in p["ops"]]]))
        for r in done:
            o = p["ops"][r["op"]]
            w = (r.get("wires") or [None])[0]
            res.states.add(h8([o["op"], o.get("m"), r["status"], w and w.fault, w and w.gen,
                               [b["ok"] for b in o.get("bk", ())], len(world.crashes)]))

    @staticmethod
    def overlap(world):
        ws = sorted((w.t0, w.t_end or w.t0) for w in world.wires)
        return any(b[0] < a[1] for a, b in zip(ws, ws[1:]))

    def skew(self, world, by):
        world.skew += by
        world.res.faults["clock jump"] += 1
        world.log(f"clock jump {by}")

    def backend(self, world, w, name, args, i):
        """outcome of the i-th back-end call caused by request w"""
        if w is None or w.op is None:
            return {"ok": False, "err": "unexpected call", "delay": 1}
        bk = world.program["ops"][w.op].get("bk") or []
        if i < len(bk):
            return bk[i]
        return {"ok": True, "value": f"extra{i}", "delay": 1}

    def perform(self, cl, op, rec):
        k = op["op"]
        if k == "call":
            m = METHODS[op["m"]]
            if m.sync:          # answered synchronously inside the server
                for h in cl.plans:
                    h["answers"] = {"seq": [dict(b) for b in op["bk"]]}
            return m.call(cl.sdk, cl.T, copy.deepcopy(op["a"]))
        if k == "async":
            m = ASYNC[op["m"]]
            y = False if op["explicit"] else None
            v = m.call(cl.sdk, cl.T, copy.deepcopy(op["a"]), y)
            if not isinstance(v, bool) and not hasattr(v, "status_code"):
                cl.world.reqids.append(v)
                cl.world.asyncid[rec["op"]] = v
            return v
        if k == "poll":
            ref = op["ref"]
            rec["refid"] = cl.world.asyncid.get(ref)
            if rec["refid"] is None:
                return cl.sdk.result("no-such-id-%d" % rec["op"])
            return cl.sdk.result(rec["refid"])
        if k == "version":
            return cl.sdk.version()
        raise HarnessError(k)

    # ---------------------------------------------------------- oracles
    def check(self, world, p, res):
        raise NotImplementedError

    def outcome(self, world, p, rec):
        """what must have happened to a `call` op: ("value", v) or ("fail", why)"""
        op = p["ops"][rec["op"]]
        m = METHODS[op["m"]]
        ws = rec["wires"]
        if not ws:
            return "fail", "no request was sent"
        w = ws[0]
        if w.outcome is None or w.outcome[0] == "exc" or w.fault:
            return "fail", f"transport {w.fault or w.outcome}"
        if w.outcome[1][0] != 200:
            return "fail", f"status {w.outcome[1][0]}"
        bad = [b for b in op.get("bk", ()) if not b["ok"]]
        if bad:
            return "fail", f"back end failed: {bad[0]['err']}"
        return "value", m.expect(op["a"], [b["value"] for b in op.get("bk", ())])

    def server_of(self, p, c):
        return p["clients"][c]["port"]

    def check_calls(self, world, p, res):
        """C20: a value only if the server really answered with that value"""
        for oi, rec in sorted(world.records.items()):
            op = p["ops"][oi]
            if op["op"] == "version" and rec["status"] == "value":
                w = rec["wires"][0]
                clean = w.outcome and w.outcome[0] == "reply" and not w.fault
                v = rec["value"]
                isver = isinstance(v, dict) and "version" in v
                if isver != bool(clean):
                    res.violate("version answer", f"op {oi}: version() returned {v!r} although the exchange was "
                                f"{'clean' if clean else 'disturbed: ' + str(w.fault or w.outcome)}", oi)
                continue
            if op["op"] == "async":
                self.check_async_start(world, p, res, oi, rec, op)
                continue
            if op["op"] != "call":
                continue
            m = METHODS[op["m"]]
            kind, want = self.outcome(world, p, rec)
            got, val = rec["status"], rec["value"]
            if got == "value" and (hasattr(val, "status_code")):
                a, b = payload(val)
                if m.kind != "resp":
                    res.violate("raw response instead of a result", f"op {oi} {op['m']}: returned {val!r}", oi)
                    continue
                got, val = ("value", b) if a == "value" else ("raise", b)
            if got is None:
                res.violate("call never ends", f"op {oi} {op['m']} never returned", oi)
            elif kind == "value":
                if got != "value":
                    res.violate("answered call reported as failed",
                                f"op {oi} {op['m']}{op['a']}: the server answered {want!r} and the reply arrived, but the "
                                f"client reported failure: {rec['exc'] or val!r}", oi)
                elif not same(val, want):
                    res.violate("wrong result", f"op {oi} {op['m']}{op['a']}: back end answered {want!r}, client got {val!r}", oi)
            else:
                if got == "value" and not (op["m"] == "addr" and val is None):
                    res.violate("failure taken for a result",
                                f"op {oi} {op['m']}{op['a']}: {want}, yet the client returned {val!r}", oi)

    def check_async_start(self, world, p, res, oi, rec, op):
        w = (rec["wires"] or [None])[0]
        if w is None or rec["status"] is None:
            res.violate("call never ends", f"op {oi} async {op['m']}: no request / no outcome ({rec['exc']!r})", oi)
            return
        clean = w.outcome and w.outcome[0] == "reply" and not w.fault and w.outcome[1][0] == 200
        cfg = p["clients"][rec["c"]]
        sync = (not op["explicit"]) and cfg["syncdefault"] is True
        m = ASYNC[op["m"]]
        if sync:
            if clean and rec["status"] == "value" and hasattr(rec["value"], "status_code"):
                k, v = payload(rec["value"])
                bad = any(not b["ok"] for b in op["bk"]) or m.kind == "bad"
                if (k == "value") == bad:
                    res.violate("synchronous default", f"op {oi} {op['m']}: {'failed' if bad else 'answered'} call returned {k} {v!r}", oi)
                elif k == "value" and not same(v, m.expect(op["a"], [b["value"] for b in op["bk"]])):
                    res.violate("wrong result", f"op {oi} {op['m']}{op['a']}: got {v!r}", oi)
            elif clean:
                res.violate("synchronous default", f"op {oi} {op['m']}: client with syncdefault=True called the synchronous "
                            f"end point and the server answered, but the outcome was {rec['exc'] or rec['value']!r}", oi)
            elif rec["status"] == "value" and hasattr(rec["value"], "status_code") and payload(rec["value"])[0] == "value":
                res.violate("failure taken for a result", f"op {oi} {op['m']}: {w.fault or w.outcome}", oi)
            return
        accepted = clean and m.kind != "bad"
        v = rec["value"]
        isid = rec["status"] == "value" and not isinstance(v, bool) and not hasattr(v, "status_code") and v is not None
        if isid and not accepted:
            res.violate("request id for a failed call", f"op {oi} async {op['m']}: {w.fault or w.outcome} yet a request id "
                        f"was returned", oi)
        elif accepted and not isid:
            res.violate("accepted call reported as failed", f"op {oi} async {op['m']}: accepted by the server, client reported "
                        f"{rec['exc'] or v!r}", oi)

    def check_polls(self, world, p, res):
        """C22"""
        ids = {}
        for oi, rid in sorted(world.asyncid.items()):
            rec = world.records[oi]
            w = rec["wires"][0]
            key = (w.port, str(rid))
            if key in ids:
                res.violate("two calls share one request id", f"ops {ids[key]} and {oi} were both told to ask for the same id", oi)
            ids[key] = oi
        for oi, rec in sorted(world.records.items()):
            op = p["ops"][oi]
            if op["op"] != "poll":
                continue
            w = (rec.get("wires") or [None])[0]
            if rec["status"] is None or w is None:
                res.violate("poll never ends", f"op {oi}: result() did not return / sent nothing", oi)
                continue
            clean = w.outcome and w.outcome[0] == "reply" and not w.fault and w.outcome[1][0] == 200
            v, st = rec["value"], rec["status"]
            if not clean:
                if st == "value" and v is not False:
                    res.violate("disturbed poll taken for an answer", f"op {oi}: {w.fault or w.outcome}: returned {v!r}", oi)
                continue
            if rec["refid"] is None:
                if st == "value" and v is not False:
                    res.violate("unknown id answered", f"op {oi}: an id nobody was given returned {v!r}", oi)
                elif st == "value" and p["clients"][rec["c"]]["roe"]:
                    res.violate("unknown id not raised", f"op {oi}: raiseonerror client got {v!r}", oi)
                continue
            aw = world.records[op["ref"]]["wires"][0]
            aop = p["ops"][op["ref"]]
            m = ASYNC[aop["m"]]
            desc = f"op {oi} polls op {op['ref']} ({aop['m']}{aop['a']})"
            if aw.port != w.port or aw.gen != w.gen:
                if st == "value" and v is not False:
                    res.violate("result of another server", f"{desc}: that server never saw this call, but answered {v!r}", oi)
                continue
            if m.kind in ("timer", "now"):
                ready = m.kind == "now" or w.t_deliver > aw.t_deliver + 5001
                may = True if m.kind == "timer" and not ready else None
                fail = None
                want = m.expect(aop["a"], None)
            else:
                calls = [c for c in world.calls if c["w"] is aw]
                n = m.ncalls(aop["a"]) if m.ncalls else 1
                settled = [c for c in calls if c["settled"] is not None and c["settled"] <= w.t_deliver]
                fails = [c for c in settled if not c["outcome"]["ok"]]
                allready = len(settled) >= n
                fail = {c["outcome"]["err"] for c in calls if c.get("outcome") and not c["outcome"]["ok"]}
                ready = allready or bool(fails)
                # same instant: either order
                tie = any(c["settled"] is not None and c["settled"] == w.t_deliver for c in calls)
                may = True if (not ready or tie) else None
                if fails and not allready:
                    may = True          # an early failure may or may not end the whole call
                want = m.expect(aop["a"], [b.get("value") for b in aop["bk"]])
            if st == "value" and v is True:
                if may is not True:
                    res.violate("finished result still pending", f"{desc}: finished {w.t_deliver - aw.t_deliver:.0f} ms after "
                                f"it started, but reported as awaiting", oi)
            elif fail:
                msg = json.dumps(v, default=str) if st == "value" else str(rec["exc"])
                if st == "value" and not any(f in msg for f in fail):
                    res.violate("failed call reported as result", f"{desc}: back end failed with {sorted(fail)} but the "
                                f"poll returned {v!r}", oi)
            elif st != "value" or v is False:
                if ready and may is not True:
                    res.violate("finished result not delivered", f"{desc}: poll gave {rec['exc'] or v!r}", oi)
                else:
                    res.violate("pending call unknown", f"{desc}: the call is still running but the poll gave {rec['exc'] or v!r}", oi)
            elif not same(v, want):
                res.violate("result of another call", f"{desc}: must deliver {want!r}, delivered {v!r}", oi)
            elif not ready and m.kind not in ("timer",):
                res.violate("result before it existed", f"{desc}: {v!r}", oi)

    def check_wires(self, world, p, res):
        """C21"""
        for oi, rec in sorted(world.records.items()):
            op = p["ops"][oi]
            cfg = p["clients"][rec["c"]]
            ws = rec.get("wires") or []
            for w in ws:
                if w.port != cfg["port"]:
                    res.violate("sent to another server", f"op {oi} {op.get('m')}: client configured for {cfg['url']} sent its "
                                f"request to port {w.port}", oi)
                if w.token != PORTS[cfg["port"]]:
                    res.violate("wrong token sent", f"op {oi}: token {w.token!r} sent to port {w.port}", oi)
            if op["op"] in ("call", "async", "poll", "version") and len(ws) != 1:
                res.violate("more than one request per call" if ws else "no request",
                            f"op {oi} {op.get('m')}: {len(ws)} requests were sent", oi)
            if op["op"] not in ("call", "async"):
                continue
            m = (METHODS if op["op"] == "call" else ASYNC)[op["m"]]
            calls = [c for c in world.calls if c["w"] is not None and c["w"].op == oi]
            if m.back is None:
                if calls:
                    res.violate("unexpected back-end call", f"op {oi} {op['m']}: {calls[0]['name']}", oi)
                continue
            n = m.ncalls(op["a"]) if m.ncalls else 1
            delivered = any(w.delivered for w in ws)
            if len(calls) > n:
                res.violate("acted more than once", f"op {oi} {op['m']}{op['a']}: the back end was called {len(calls)} times "
                            f"({[c['name'] for c in calls]})", oi)
                continue
            if calls and not delivered:
                res.violate("acted without a request", f"op {oi} {op['m']}", oi)
            if delivered and len(calls) < n and not (m.sync and any(not b["ok"] for b in op["bk"])):
                res.violate("request not carried out", f"op {oi} {op['m']}{op['a']}: {len(calls)} of {n} back-end calls made", oi)
                continue
            want = m.bargs(op["a"])
            if not m.ncalls:
                want = [want]
            got = [c["args"] for c in calls]
            if m.sync and any(not b["ok"] for b in op["bk"]):
                want = want[:len(got)]                 # a back end that fails at once ends the request
            if calls and not same(lower(trim(got)), lower(trim(want))):
                res.violate("arguments altered on the way", f"op {oi} {op['m']}{op['a']}: back end got {got!r}, expected {want!r}", oi)
            for c in calls:
                if c["name"] != m.bname:
                    res.violate("another operation carried out", f"op {oi} {op['m']}: back end saw {c['name']}", oi)
            if op["m"] == "signsubmit" and ws:
                b = ws[0].json() or {}
                if b.get("sign") is not op["a"][1] or not same(b.get("tx"), op["a"][0]):
                    res.violate("submission does not say what to sign", f"op {oi}: signsubmittx(sign={op['a'][1]}) was sent as "
                                f"{ {k: v for k, v in b.items() if k != 'tx'} }", oi)

    def check_server(self, world, p, res):
        """C24"""
        for c in world.crashes:
            res.violate("server died", f"at {c['t']:.0f} ms: {c['msg']}", None)
        for rid in world.doublesends:
            w = world.wires[rid]
            res.violate("answered twice", f"{w.method} {w.path} (op {w.op})", w.op)
        for w in world.wires:
            if w.delivered and not w.replies and not world.crashes:
                # ordered crashes take requests with them
                if w.killed == "crash":
                    continue
                res.violate("request never answered", f"{w.method} {w.path} {str(w.body)[:200]} (op {w.op}): no reply", w.op)
            if len(w.replies) > 1:
                res.violate("answered twice", f"{w.method} {w.path} (op {w.op}): {len(w.replies)} replies", w.op)


def trim(x):
    """trailing nulls of an argument list are the JavaScript 'undefined' of omitted arguments"""
    out = []
    for a in x:
        a = list(a)
        while a and a[-1] is None:
            a.pop()
        out.append(a)
    return out


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        try:
            return math.isclose(float(a), float(b), rel_tol=1e-9, abs_tol=1e-12)
        except (TypeError, ValueError):
            return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a == b and type(a) is type(b) or (a == b and not isinstance(a, bool) and not isinstance(b, bool))


# ------------------------------------------------------------------ the claimed properties
class C20(SdkScenario):
    pid = "C20"
    mix = {"call": 10, "async": 2, "version": 1}

    def check(self, world, p, res):
        self.check_calls(world, p, res)


class C21(SdkScenario):
    pid = "C21"
    mix = {"call": 8, "async": 2, "poll": 1, "version": .5}

    def gen_call(self, rng, c, clients, pf, pb, ops, names=None):
        if rng.random() < .35:
            names = ["signsubmit", "createBuySell", "composeByTarget", "composeBySource", "deleteStrategy"]
        return super().gen_call(rng, c, clients, pf, pb, ops, names)

    def check(self, world, p, res):
        self.check_wires(world, p, res)


class C22(SdkScenario):
    pid = "C22"
    mix = {"async": 5, "poll": 6, "call": 1}
    nops = (6, 16)

    def check(self, world, p, res):
        self.check_polls(world, p, res)


class C23(SdkScenario):
    """outsiders without the token, among legitimate users"""
    pid = "C23"
    mix = {"call": 4, "async": 3, "poll": 2, "raw": 8}
    nops = (6, 16)
    ROUTES = [("POST", "/api/scall/{f}"), ("POST", "/api/ascall/{f}"), ("GET", "/api/result/{id}"), ("GET", "/api/addr"),
              ("POST", "/api/signsubmittx"), ("POST", "/api/erc20/{e}"), ("POST", "/API/scall/{f}"), ("POST", "/api/scall/{f}/"),
              ("GET", "/api/scall/{f}"), ("HEAD", "/api/addr"), ("POST", "/api/result/{id}")]

    def gen_raw(self, rng, c, clients, pf, pb, ops):
        port = rng.choice(list(PORTS))
        right = PORTS[port]
        other = [t for q, t in PORTS.items() if q != port][0]
        hdr = rng.choice([{}, {}, {"token": ""}, {"token": right[:-1]}, {"token": right + "x"}, {"token": right.upper()},
                          {"token": right.swapcase()}, {"token": "undefined"}, {"token": "null"}, {"token": "true"}, {"token": "0"},
                          {"token": other}, {"authorization": "Bearer x"}, {"token": "carbontoke"}, {"token": right[::-1]},
                          {"token": right[1:]}, {"token": "[object Object]"}, {"tokens": "x"}, {"token": right[0]}])
        if hdr.get("token") == right:
            hdr = {}
        meth, path = rng.choice(self.ROUTES)
        f = rng.choice(["get_liquidity_by_pair", "get_trade_data", "create_buy_sell_strategy", "delete_strategy", "qplus",
                        "pairs", "has_liquidity_by_pair", "get_user_strategies", "plus", "nonsense"])
        e = rng.choice(["balance_of", "decimals", "symbol", "approve", "hello"])
        a, b = two(rng)
        body = {"sourceToken": A[a], "targetToken": A[b], "baseToken": A[a], "quoteToken": A[b], "amount": "1", "a": 3, "b": 5,
                "strategyId": "1", "user": A[a], "tokens": [A[a]], "address": A[b], "tx": {"to": A[a]}, "sign": True,
                "tradeByTargetAmount": False, "to": A[a]}
        if rng.random() < .2:
            body["token"] = rng.choice(["x", None, True])
        asyncs = [i for i, o in enumerate(ops) if o["op"] == "async"]
        return {"op": "raw", "c": c, "port": port, "method": meth, "path": path.replace("{f}", f).replace("{e}", e), "ref":
                rng.choice(asyncs) if asyncs else None, "headers": hdr, "body": body if meth == "POST" else None,
                "http": [{"lat": 1}], "ct": rng.random() < .9}

    def perform(self, cl, op, rec):
        if op["op"] != "raw":
            return super().perform(cl, op, rec)
        h = dict(op["headers"])
        if op["ct"]:
            h["Content-Type"] = "application/json"
        path = op["path"]
        if "{id}" in path:
            rid = cl.world.asyncid.get(op["ref"], "0")
            path = path.replace("{id}", str(rid))
        w = cl.world.inject(cl.ix, rec["op"], op["method"], op["port"], path, h,
                            json.dumps(op["body"]) if op["body"] is not None else None, op["http"][0])
        rec["rawwire"] = w
        return None

    def check(self, world, p, res):
        secrets = [WALLET.lower()]
        for o in p["ops"]:
            for b in o.get("bk", ()):
                if b["ok"] and not isinstance(b["value"], (bool, int)) and len(str(b["value"])) > 5:
                    secrets.append(json.dumps(b["value"]).lower())
        secrets += [t.lower() for t in PORTS.values()]
        for oi, rec in sorted(world.records.items()):
            op = p["ops"][oi]
            if op["op"] != "raw":
                continue
            w = rec["rawwire"]
            res.stats["outsider requests"] += 1
            if any(c["w"] is w for c in world.calls):
                res.violate("acted without the token", f"op {oi}: {op['method']} {op['path']} with headers {op['headers']} reached "
                            f"the back end: {[c['name'] for c in world.calls if c['w'] is w]}", oi)
            for r in w.replies:
                body = (r["body"] or "").lower()
                if r["status"] < 400:
                    res.violate("served without the token", f"op {oi}: {op['method']} {op['path']} with headers {op['headers']} was "
                                f"answered {r['status']} {r['body'][:200]}", oi)
                leak = [s for s in secrets if s in body]
                if leak:
                    res.violate("revealed without the token", f"op {oi}: {op['method']} {op['path']}: reply contains {leak[0][:80]}", oi)
        # what outsiders do must not disturb the others
        mine = Result()
        self.check_polls(world, p, mine)
        self.check_calls(world, p, mine)
        if mine.violations and any(o["op"] == "raw" for o in p["ops"]):
            # only if it is their doing: the same run with the outsiders staying away
            q = json.loads(json.dumps(p))
            for o in q["ops"]:
                if o["op"] == "raw":
                    o["op"] = "absent"
            twin = AbsentTwin().execute(q)
            if not twin.violations:
                for v in mine.violations:
                    res.violate("legitimate call disturbed: " + v["kind"], v["msg"], v["op"])


class AbsentTwin(SdkScenario):
    pid = "C23"

    def perform(self, cl, op, rec):
        return None if op["op"] == "absent" else super().perform(cl, op, rec)

    def check(self, world, p, res):
        self.check_polls(world, p, res)
        self.check_calls(world, p, res)


class C24(C23):
    """authorised but broken requests, failing back end"""
    pid = "C24"
    quick_runs = 400
    mix = {"call": 6, "async": 3, "poll": 2, "raw": 6}

    def gen_raw(self, rng, c, clients, pf, pb, ops):
        o = super().gen_raw(rng, c, clients, pf, pb, ops)
        o["headers"] = {"token": PORTS[o["port"]]}
        b = o["body"]
        if b is not None:
            r = rng.random()
            if r < .15:
                b.pop(rng.choice(sorted(b)))
            elif r < .3:
                b[rng.choice(sorted(b))] = rng.choice([None, 17, "nonsense", [], {}, True, ["x", 5]])
            elif r < .4:
                o["body"] = {}
            elif r < .45:
                b["pairList"] = rng.choice([[], [{}], [{"sourceToken": A["ETH"], "targetToken": A["BNT"]}] * 2, 5])
            elif r < .55:
                b["rate"] = rng.choice([[], ["1", "2"], ["x"], "1"])
            elif r < .6 or (r < .8 and "erc20" in o["path"]):
                b["tokens"] = rng.choice([[], [A["ETH"], A["BNT"]], [A["ETH"], 7], "x", None])
        o["bk"] = [{"ok": rng.random() < .6, "value": rng.choice([uniq(rng), uniq(rng), [], [uniq(rng)], {}, "", False, 0, [[]],
                                                                                 ["", "1"]]),
                    "err": rng.choice(["call revert exception", "network changed", "timeout", "odd", "nonce has expired"]),
                    "delay": rng.choice([0, 1, 5])} for _ in range(4)]
        if rng.random() < .12:
            o["text"] = rng.choice(["{", "nonsense", "[1,", "\"x\"", "[]", "[1]", "null"])
        if o["path"].startswith("/api/result") and rng.random() < .4:
            o["path"] = "/api/result/" + rng.choice(["constructor", "__proto__", "%41", "%", "x" * 50, "toString", "undefined"])
        return o

    def perform(self, cl, op, rec):
        if op["op"] == "raw" and op.get("text") is not None and op["method"] == "POST":
            h = dict(op["headers"])
            h["Content-Type"] = "application/json"
            rec["rawwire"] = cl.world.inject(cl.ix, rec["op"], op["method"], op["port"], op["path"], h, op["text"], op["http"][0])
            return None
        if op["op"] == "raw":
            op["http"][0]["answers"] = {"seq": [{"ok": True, "value": True}]}
        return super().perform(cl, op, rec)

    def check(self, world, p, res):
        self.check_server(world, p, res)
        if not world.crashes:
            self.check_calls(world, p, res)
        for w in world.wires:
            if w.raw and len(w.replies) == 1 and w.path.startswith("/api/") and w.replies[0]["status"] == 401:
                res.violate("authorised request turned away", f"{w.method} {w.path} (op {w.op})", w.op)


class C25(SdkScenario):
    """the m-layer: the user speaks in pairs and sides, the chain in source and target tokens"""
    pid = "C25"
    mix = {"m": 1}
    nops = (3, 9)
    faults = PRE_FAULTS + ("reply_lost", "timeout_reply", "html502_late", "cut")
    OPS = ("has", "hasn", "liq", "range", "depth", "market", "create", "trade", "strategies")

    def generate(self, rng, tier):
        p = super().generate(rng, tier)
        p["profile"] = p["profile"]
        toks = rng.sample(TK + ["FOO"] * any(c["tokens"] == "own" for c in p["clients"]), rng.randint(3, 5))
        market = {}
        for a in toks:
            for b in toks:
                if a != b and rng.random() < .8:
                    lo = math.exp(rng.uniform(-9, 9))
                    market[f"{a}>{b}"] = {"min": repr(lo), "max": repr(lo * math.exp(rng.uniform(0, 2))),
                                          "liq": repr(math.exp(rng.uniform(-5, 14)))}
        p["market"] = market
        for o in p["ops"]:
            self.fill(rng, o, toks, p["clients"][o["c"]]["tokens"])
        return p

    def gen_m(self, rng, c, clients, pf, pb, ops):
        n = 6
        o = {"op": "m", "c": c, "m": rng.choice(self.OPS), "http": [gen_http(rng, pf / 3, self.faults) for _ in range(n)],
             "bfail": [rng.random() < pb / 3 for _ in range(8)], "bdelay": [rng.choice([0, 1, 5, 50]) for _ in range(8)]}
        return o

    def fill(self, rng, o, toks, book):
        W = {"global": ADDR, "own": OWN, "none": ADDR}[book]
        b, q = rng.sample(toks, 2)
        o["pair"] = f"{b}/{q}"
        o["aspair"] = rng.random() < .5
        o["sells"] = rng.choice([b, q])
        o["rate_x"] = rng.choice([0, 1, rng.random()])
        m = o["m"]
        if m == "hasn":
            o["list"] = ["/".join(rng.sample(toks, 2)) for _ in range(rng.randint(1, 4))]
            o["form"] = rng.choice(["str", "list", "pairs"])
        if m == "depth":
            rs = [round(math.exp(rng.uniform(-8, 8)), 6) for _ in range(rng.randint(1, 3))]
            o["rate"] = rs if rng.random() < .5 else rs[0]
        if m == "create":
            x = sorted(round(math.exp(rng.uniform(-6, 8)), 6) for _ in range(4))
            r = rng.random()
            s, e, bs, be = x[2], x[3], x[1], x[0]
            if r < .2:
                s, e = e, s
            elif r < .4:
                bs, be = be, bs
            elif r < .5:
                s, e, bs, be = x[0], x[1], x[3], x[2]
            elif r < .6:
                s, e, bs, be = x[1], x[3], x[2], x[0]
            o["args"] = [s, e, round(rng.uniform(0, 50), 3), bs, be, round(rng.uniform(0, 5000), 3)]
            o["ov"] = ov(rng)
        if m == "trade":
            o["tkn"] = rng.choice([b, q])
            o["side"] = rng.choice(["BUY", "SELL"])
            o["amount"] = rng.choice([1, 2.5, 0.003, 12345, 7, 99.5, 1, 2.5, 0, -3])
            o["dev"] = rng.choice([None, None, 0.01, 0.5, 0])
            o["deadline"], o["ov"], o["pos"] = rng.choice([None, None, 1999999999]), ov(rng), rng.random() < .4
            o["td"] = {"tradeActions": [{"strategyId": bn(rng.getrandbits(140) + 1), "amount": bn(rng.getrandbits(80) + 1)}
                                        for _ in range(rng.randint(1, 3))],
                       "actionsWei": [], "actionsTokenRes": [{"sourceAmount": uniq(rng), "targetAmount": uniq(rng)}],
                       "totalSourceAmount": uniq(rng), "totalTargetAmount": uniq(rng), "effectiveRate": uniq(rng)}
        if m == "strategies":
            o["user"] = "0x%040x" % rng.getrandbits(160)
            o["nsd"] = rng.choice([True, True, None, 4, 12])
            out = []
            for _ in range(rng.randint(0, 3)):
                t0, t1 = rng.sample(toks, 2)
                cs = rng.choice([lambda s: s, lambda s: "0x" + s[2:].upper()])
                order = lambda: {"y": bn(rng.getrandbits(70)), "z": bn(rng.getrandbits(71)), "A": bn(rng.getrandbits(50)), "B": bn(rng.getrandbits(50))}
                i = bn(rng.getrandbits(140) + 1)
                x = sorted(math.exp(rng.uniform(-4, 7)) for _ in range(4))
                x0, x1 = W.get(t0, "0x" + "%040x" % 0xdead), W.get(t1, "0x" + "%040x" % 0xbeef)
                out.append({"id": i, "baseToken": cs(x0), "quoteToken": cs(x1), "buyPriceLow": repr(x[0]), "buyPriceHigh": repr(x[1]),
                            "buyBudget": uniq(rng), "sellPriceLow": repr(x[2]), "sellPriceHigh": repr(x[3]), "sellBudget": uniq(rng),
                            "encoded": {"id": i, "token0": cs(x0), "token1": cs(x1), "order0": order(), "order1": order()}})
            o["list"] = out

    # ---------------------------------------------------------- the chain
    def backend(self, world, w, name, args, i):
        if w is None or w.op is None:
            return {"ok": False, "err": "unexpected call", "delay": 1}
        o = world.program["ops"][w.op]
        j = (w.ix * 3 + i) % 8
        d = {"ok": True, "delay": o["bdelay"][j]}
        v = None
        rev = {a: t for t, a in [*ADDR.items(), *OWN.items()]}
        if name in ("sdk.getLiquidityByPair", "sdk.getMinRateByPair", "sdk.getMaxRateByPair", "sdk.getRateLiquidityDepthByPair"):
            s, t = (rev.get(str(x).lower()) for x in args[:2])
            mk = world.program["market"].get(f"{s}>{t}")
            if mk is None:
                v = None
            elif name.endswith("LiquidityByPair"):
                v = mk["liq"]
            elif name.endswith("MinRateByPair"):
                v = mk["min"]
            elif name.endswith("MaxRateByPair"):
                v = mk["max"]
            else:
                v = self.depth(mk, args[2])
        elif name == "sdk.getTradeData":
            v = o.get("td")
        elif name == "sdk.getUserStrategies":
            v = o.get("list")
        else:
            v = {"to": "0x01", "data": h8(["tx", name, lower(args)])}
        if o["bfail"][j] or v is None:
            return dict(d, ok=False, err="call revert exception")
        return dict(d, value=v)

    @staticmethod
    def depth(mk, rate):
        r = float(rate)
        return repr(float(mk["liq"]) / (1 + r * r / float(mk["max"]) ** 2))

    def perform(self, cl, op, rec):
        from carbon import CarbonPair
        sdk = cl.sdk
        pair = CarbonPair(op["pair"]) if op["aspair"] else op["pair"]
        m = op["m"]
        table = {}
        mk = cl.world.program["market"]
        for W in (ADDR, OWN):
            for a in W:
                for b in W:
                    table[f"sdk.hasLiquidityByPair|{W[a]}|{W[b]}"] = {"ok": True, "value": f"{a}>{b}" in mk}
        for h in cl.plans:
            h["answers"] = {"table": table}
        if m == "has":
            return sdk.mHasLiquidityByPair(CarbonPair(op["pair"]), op["sells"])
        if m == "hasn":
            x = {"str": ", ".join(op["list"]), "list": op["list"], "pairs": [CarbonPair(s) for s in op["list"]]}[op["form"]]
            return sdk.mHasLiquidityByPairs(x)
        if m == "liq":
            return sdk.mGetLiquidityByPair(pair, op["sells"])
        if m == "range":
            return sdk.mGetRangeByPair(pair, op["sells"])
        if m == "depth":
            return sdk.mGetRateLiquidityDepthByPair(op["rate"], pair, op["sells"])
        if m == "market":
            return sdk.mGetMarketByPair(pair)
        if m == "create":
            return sdk.mCreateStrategy(pair, *op["args"], copy.deepcopy(op["ov"]))
        if m == "trade":
            td = sdk.mPrepareTrade(pair, op["side"], op["tkn"], op["amount"])
            rec["td"] = td
            kw = {}
            for k, f in (("dev", "maxDeviationPc"), ("deadline", "deadline"), ("ov", "overrides")):
                if op.get(k) is not None:
                    kw[f] = copy.deepcopy(op[k])
            if op.get("pos"):
                return sdk.mComposeTradeTransaction(*td.cttargs, **kw)
            return sdk.mComposeTradeTransaction(**td.cttkwargs, **kw)
        if m == "strategies":
            return sdk.mGetUserStrategies(op["user"]) if op["nsd"] is True else sdk.mGetUserStrategies(op["user"], nsd=op["nsd"])
        raise HarnessError(m)

    # ---------------------------------------------------------- what the user must see
    def expected(self, p, op):
        """("value", check function) or ("fail", why), ignoring transport"""
        b, q = op["pair"].split("/")
        mk = p["market"]
        m = op["m"]
        book = p["clients"][op["c"]]["tokens"]
        W = KNOWN[book]
        if m == "strategies":
            if book == "none" and op["list"]:
                return "fail", "no token list"
        elif not set("/".join(op["list"] if m == "hasn" else [op["pair"]]).split("/")) <= set(W):
            return "fail", "unknown token"

        def side(sells):
            other = q if sells == b else b
            return mk.get(f"{other}>{sells}")

        def price(rate, sells):             # rate = sold token per bought token
            return float(rate) if sells == q else 1 / float(rate)
        if m == "has":
            s = op["sells"]
            return "value", lambda v, r: v is (side(s) is not None)
        if m == "hasn":
            want = []
            for pr in op["list"]:
                x, y = pr.split("/")
                want += [(pr, y, f"{x}>{y}" in mk), (pr, x, f"{y}>{x}" in mk)]
            return "value", lambda v, r: [(str(d["pair"].slashpair), d["AMMsells"], d["hasLiquidity"]) for d in v] == want
        s = op["sells"]
        if m in ("liq", "range", "depth"):
            x = side(s)
            if x is None:
                return "fail", "no market"
            ba = "ask" if s == b else "bid"
            if m == "liq":
                return "value", lambda v, r: same(v.amount, float(x["liq"])) and v.unit == s and v.AMMsells == s and v.bidAsk == ba
            if m == "range":
                return "value", lambda v, r: (same(v.startRate, price(x["max"], s)) and same(v.endRate, price(x["min"], s)) and
                                              v.AMMsells == s and v.AMMbuys == (q if s == b else b) and v.bidAsk == ba)
            conv = (lambda r: 1 / r) if s == b else (lambda r: r)
            rt = op["rate"]
            if isinstance(rt, list):
                w = [float(self.depth(x, conv(r))) for r in rt]
            else:
                w = float(self.depth(x, conv(rt)))
            return "value", lambda v, r: same(v.amount, w) and v.bidAsk == ba and v.AMMsells == s and same(v.rate, rt)
        if m == "market":
            xb, xa = side(q), side(b)
            if xb is None or xa is None:
                return "fail", "no market"
            want = dict(bestBid=price(xb["max"], q), lastBid=price(xb["min"], q), liqBid=float(xb["liq"]),
                        bestAsk=price(xa["max"], b), lastAsk=price(xa["min"], b), liqAsk=float(xa["liq"]))
            w = want
            u = op["rate_x"]
            want = dict(w, spread=w["bestAsk"] - w["bestBid"], mid=(w["bestAsk"] + w["bestBid"]) / 2, liqBidUnit=q, liqAskUnit=b,
                        bidAMMSells=q, askAMMSells=b, bidTraderSells=b, askTraderSells=q, inverted=w["bestBid"] > w["bestAsk"],
                        spreadpc=(w["bestAsk"] - w["bestBid"]) / ((w["bestAsk"] + w["bestBid"]) / 2))
            at = dict(ibid=w["bestBid"] * (1 - u) + w["lastBid"] * u, iask=w["bestAsk"] * (1 - u) + w["lastAsk"] * u,
                      iall=w["lastBid"] * (1 - u) + w["lastAsk"] * u)
            big = max(w["bestAsk"], w["bestBid"], w["lastAsk"], w["lastBid"])
            near = lambda x, y: x == y if isinstance(y, (str, bool)) else same(x, y) or abs(x - y) < 1e-9 * big
            return "value", lambda v, r: (all(near(getattr(v, k), x) for k, x in want.items()) and v.pair == op["pair"] and
                                          all(near(getattr(v, k)(u), x) for k, x in at.items()))
        if m == "create":
            s0, e0, _, b0, b1, _ = op["args"]
            if not min(s0, e0) > max(b0, b1):
                return "fail", "the sell range does not lie above the buy range"
            return "value", lambda v, r: isinstance(v, dict) and "data" in v
        if m == "trade":
            if not op["amount"] > 0:
                return "fail", "the amount is not positive"
            return "value", lambda v, r: isinstance(v, dict) and "data" in v
        if m == "strategies":
            nsd = 8 if op["nsd"] is True else op["nsd"]
            tol = 0 if nsd is None else 5.01 * 10 ** -nsd

            def chk(v, r):
                if len(v) != len(op["list"]):
                    return False
                for st, raw in zip(v, op["list"]):
                    if st.sid != int(raw["id"]["hex"], 16):
                        return False
                    for f in ("buyPriceLow", "buyPriceHigh", "buyBudget", "sellPriceLow", "sellPriceHigh", "sellBudget"):
                        if not math.isclose(getattr(st, f), float(raw[f]), rel_tol=tol):
                            return False
                    rev = {a: t for t, a in W.items()}
                    if (st.baseToken.lower(), st.quoteToken.lower()) != (raw["baseToken"].lower(), raw["quoteToken"].lower()):
                        return False
                    if (st.baseTokenName, st.quoteTokenName) != \
                            tuple(rev.get(raw[f].lower(), raw[f].lower()) for f in ("baseToken", "quoteToken")):
                        return False
                    for f in ("order0", "order1"):
                        for g in "yzAB":
                            if st.encoded[f][g] != int(raw["encoded"][f][g]["hex"], 16):
                                return False
                        o = st.encoded[f]
                        a_, b_ = (((x % 2 ** 48) << (x // 2 ** 48)) / 2 ** 48 for x in (o["A"], o["B"]))
                        if not all(math.isclose(x, y, rel_tol=1e-9) for x, y in [
                                (o.A_, a_), (o.B_, b_), (o.p_end, b_ * b_), (o.p_start, (a_ + b_) ** 2), (o.decoded.A, a_), (o.decoded.B, b_)]):
                            return False
                        if lower(o.token) != raw["encoded"]["token" + f[-1]].lower():
                            return False
                return True
            return "value", chk
        raise HarnessError(m)

    def check(self, world, p, res):
        for oi, rec in sorted(world.records.items()):
            op = p["ops"][oi]
            if rec["status"] is None:
                res.violate("call never ends", f"op {oi} {op['m']}", oi)
                continue
            ws = rec["wires"]
            calls = [c for c in world.calls if c["w"] is not None and c["w"].op == oi]
            disturbed = [w for w in ws if w.outcome is None or w.outcome[0] == "exc" or w.fault or w.outcome[1][0] != 200]
            failed = [c for c in calls if c.get("outcome") and not c["outcome"]["ok"]]
            kind, chk = self.expected(p, op)
            if disturbed or failed:
                kind, chk = "fail", "disturbed" if disturbed else "back end failure"
            desc = f"op {oi} {op['m']} {op['pair']} " + json.dumps({k: op[k] for k in ("sells", "rate", "args", "tkn", "side", "amount", "list", "dev", "nsd")
                                                                   if k in op}, default=str)[:400]
            if kind == "fail":
                if rec["status"] == "value":
                    res.violate("failure taken for a result", f"{desc}: {chk}, yet returned {rec['value']!r}"[:900], oi)
                    continue
            elif rec["status"] != "value":
                res.violate("valid request refused", f"{desc}: {rec['exc']!r}", oi)
                continue
            elif not chk(rec["value"], rec):
                res.violate("wrong answer", f"{desc}: returned {rec['value']!r}"[:1200], oi)
                continue
            b, q = op["pair"].split("/")
            W = KNOWN[p["clients"][op["c"]]["tokens"]]
            if kind == "fail" and chk == "unknown token" and calls:
                res.violate("request about an unknown token sent", desc, oi)
                continue
            for c in calls:
                for x in c["args"]:
                    if isinstance(x, str) and len(x) == 42 and x.startswith("0x") and x.lower() not in W.values() and op["m"] != "strategies":
                        res.violate("wrong token asked for", f"{desc}: back end got {c['name']}{c['args']!r}", oi)
            if op["m"] == "create":
                s0, e0, sb, b0, b1, bb = op["args"]
                want = [W.get(b), W.get(q), min(b0, b1), max(b0, b1), bb, min(s0, e0), max(s0, e0), sb]
                if kind == "fail" and chk.startswith("the sell") and calls:
                    res.violate("refused strategy submitted", desc, oi)
                for c in calls:
                    got = c["args"]
                    ok = c["name"] == "sdk.createBuySellStrategy" and lower(got[:2]) == want[:2] and \
                        all(same(float(x), float(y)) for x, y in zip(got[2:8], want[2:])) and \
                        lower(got[8]) == eov(op["ov"])
                    if not ok:
                        res.violate("another strategy composed", f"{desc}: back end got {c['name']}{got!r}, the user asked for {want!r}", oi)
                if len(calls) > 1:
                    res.violate("strategy composed twice", desc, oi)
            if op["m"] == "trade":
                if kind == "fail" and chk.startswith("the amount") and calls:
                    res.violate("refused trade sent", desc, oi)
                buys = op["side"] == "BUY"
                tgt = op["tkn"] if buys else (q if op["tkn"] == b else b)
                src = q if tgt == b else b
                for c in calls:
                    got = c["args"]
                    if lower(got[:2]) != [W.get(src), W.get(tgt)]:
                        res.violate("traded the other way", f"{desc}: back end got {c['name']}{got!r}", oi)
                    elif c["name"] == "sdk.getTradeData":
                        if not (same(float(got[2]), float(op["amount"])) and got[3] is buys):
                            res.violate("another trade prepared", f"{desc}: back end got {got!r}", oi)
                    else:
                        dev = 0.1 if op["dev"] is None else op["dev"]
                        nm = "sdk.composeTradeByTargetTransaction" if buys else "sdk.composeTradeBySourceTransaction"
                        lim = float(op["td"]["totalSourceAmount"]) * (1 + dev) if buys else float(op["td"]["totalTargetAmount"]) * (1 - dev)
                        acts_ = [{k: str(int(v["hex"], 16)) for k, v in d.items()} for d in op["td"]["tradeActions"]]
                        if c["name"] != nm or got[2] != acts_:
                            res.violate("another trade composed", f"{desc}: back end got {c['name']}{got!r}", oi)
                        elif str(got[3]) != (MAXDL if op.get("deadline") is None else str(op["deadline"])) or lower(got[5]) != eov(op.get("ov")):
                            res.violate("another trade composed", f"{desc}: back end got {c['name']}{got!r}; deadline {op.get('deadline')} "
                                        f"overrides {op.get('ov')} asked for", oi)
                        elif not same(float(got[4]), lim):
                            res.violate("the trader's protection is wrong", f"{desc}: limit sent {got[4]}, agreed {lim}", oi)
                if len(calls) > 2:
                    res.violate("trade composed twice", desc, oi)
