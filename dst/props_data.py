"""
C26 market data queries on a simulated network
C27 the market data cache on a simulated disk, with crashes and restarts
C28 the API key
C29 saving, loading and reading data files on a simulated disk
"""
import builtins
import io
import json
import math
import os
import random
import sys

from . import boot
from .core import Scenario, Result, h8
from .dataworld import Disk, Provider, Crash

TRANSPORT = ("refused", "timeout", "reset")
STATUS = ("500", "429", "503html", "401")
API = ("apierror", "apierror2")
GARBLED = ("truncated", "html", "empty")
BAD = TRANSPORT + STATUS + API + GARBLED
KEYS = ["K3YaaaaFIRSTsecret0123456789", "zz9-SECOND_secret.key", "s p/e&c=ial?key#3"]
REAL_CC = ["carbon.helpers.cryptocompare", "requests (session, URL encoding, response decoding)", "pandas", "pickle"]
STUB_CC = ["requests.adapters.HTTPAdapter.send (data provider and network)", "builtins.open, os.rename/remove (disk, on a scratch directory)",
           "environment variables", "standard output"]


def norm(x):
    """comparable form of any value"""
    import pandas as pd
    if isinstance(x, pd.DataFrame):
        return ["df", [str(i) for i in x.index], [str(c) for c in x.columns], [[repr(v) for v in x.iloc[:, j].tolist()] for j in range(x.shape[1])]]
    if isinstance(x, pd.Series):
        return ["series", [str(i) for i in x.index], [repr(v) for v in x.tolist()]]
    if isinstance(x, dict):
        return ["dict", [[repr(k), norm(v)] for k, v in x.items()]]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [norm(v) for v in x]]
    return repr(x)


def mkval(seed):
    r = random.Random(seed)
    k = r.randrange(6)
    if k == 0:
        return {f"k{i}": r.random() for i in range(r.randint(0, 60))}
    if k == 1:
        return [r.randint(-5, 5) for _ in range(r.randint(0, 400))]
    if k == 2:
        import pandas as pd
        return pd.DataFrame({"a": [r.random() for _ in range(5)], "b": [r.randint(0, 9) for _ in range(5)]})
    if k == 3:
        return "x" * r.randint(0, 3000) + "é"
    if k == 4:
        return {"nested": [{"v": r.random(), "w": (1, None, True)} for _ in range(r.randint(1, 30))]}
    return {"Data": {}, "n": r.randint(0, 3)}


def brief(x, n=160):
    s = repr(x)
    return s if len(s) < n else s[:n] + "..."


class _CC(Scenario):
    time_unit = "requests and disk steps"
    real = REAL_CC
    stub = STUB_CC
    weights = {}
    pnet = .4
    pdisk = .0
    rule = ("a simulated run is non-trivial when at least one request reached the provider or a cache file was touched; distinct "
            "histories are counted by the sequence of (operation, provider behaviours, disk fault fired, outcome)")

    NAMES = ["allexchanges", "coinlist", "indexlist"]

    def mkclient(self, rng):
        return {"apikey": rng.choice([0, 0, 1, 2, True, None, None]), "name": rng.choice([None, None, "MYKEY"]),
                "env": {"CCAPIKEY": rng.choice([0, 1, None]), "MYKEY": rng.choice([1, 2, None])}, "roe": rng.choice([None, True, False, False])}

    def generate(self, rng, tier):
        n = rng.randint(3, 14) * (1 if tier == "quick" else rng.choice([1, 2, 3]))
        kinds = list(self.weights)
        ops = []
        for _ in range(n):
            k = rng.choices(kinds, [self.weights[q] for q in kinds])[0]
            o = {"op": k, "c": rng.randrange(2)}
            if k in ("query", "cached"):
                o["name"] = rng.choice(self.NAMES + (["ratelimit"] if k == "query" else []))
            if k == "cached":
                o["rof"], o["uof"] = rng.choice([None, True, True, False]), rng.choice([None, False, True, True])
            if k == "pair":
                o.update(freq=rng.choice(["day", "hour", "minute"]), alias=rng.random() < .5, fsym=rng.choice(["BTC", "ETH", "LINK"]),
                         tsym=rng.choice([None, "usd", "GBP"]), e=rng.choice([None, None, "Kraken"]),
                         limit=rng.choice([False, False, None, 1, 3, 2000]), toTs=rng.choice([None, None, 1452680400, 1452680400.0, 1452680430.5, "2021-05-05 13:00", "2022-01-01"]),
                         aspandas=rng.random() < .75)
            if k == "aggr":
                tk = rng.sample(["BTC/USD", "ETH/USD", "LINK/ETH", "BTC/GBP", "XRP/BTC", "MATIC/USD"], rng.randint(1, 4))
                o.update(pairs=tk, str=rng.random() < .5, fields=rng.choice([None, "close", "open, high", ["close", "low"], ["volumefrom"]]),
                         freq=rng.choice([None, "hour", "minute"]), raw=rng.random() < .7, rawaggr=rng.random() < .7, grand=rng.random() < .7,
                         kw=rng.choice([{}, {}, {"limit": 3}, {"e": "Kraken"}, {"toTs": 1452680400, "limit": 2}]))
            if k in ("write", "read"):
                o["item"] = rng.choice(["a", "b", "query_coinlist", "query_indexlist"])
                o["val"] = rng.getrandbits(24)
                o["un"] = k == "write" and rng.random() < .12
            if k == "generic":
                o.update(path=rng.choice(["/data/all/coinlist", "/data/index/list", "/stats/rate/limit"]), method=rng.choice([None, "GET", "POST", "PUT"]),
                         params=rng.choice([None, {}, {"a": 1, "b": None}, {"sym": "é&x=1", "n": 0, "f": None}]))
            if k == "pairs":
                coins = rng.choices(["BTC", "ETH", "USD", "LINK", "DAI"], k=rng.randint(1, 4))
                o.update(coins=coins, quotes=rng.choice([None, rng.sample(["USD", "ETH", "GBP"], rng.randint(1, 3))]), str=rng.random() < .5)
            if k == "restart":
                o["client"] = self.mkclient(rng)
            if k in ("query", "cached", "pair", "aggr", "generic") and rng.random() < self.pnet:
                m = rng.randint(1, 3) if k == "aggr" else 1
                o["net"] = [rng.choice(BAD) for _ in range(m)]
                if k == "aggr" and rng.random() < .6:
                    o["net"] = ["ok"] * rng.randint(1, 3) + o["net"][:1]
            if k in ("cached", "write", "read") and rng.random() < self.pdisk:
                o["disk"] = [rng.choice([0, 0, 1, 1, 2, 3, 5, 8, 13]), rng.choice(["EACCES", "EMFILE", "ENOSPC", "EIO", "short", "crash", "crash"]), rng.choice([0, 0, .3, .5, .99])]
            ops.append(o)
        return {"clients": [self.mkclient(rng), self.mkclient(rng)], "world": rng.getrandbits(20), "ops": ops}

    def shrink_fields(self, op):
        for k in ("net", "disk"):
            if k in op:
                yield {x: v for x, v in op.items() if x != k}

    # ------------------------------------------------------------ execution
    def execute(self, p):
        res = Result()
        so, se = sys.stdout, sys.stderr
        env = dict(os.environ)
        disk = Disk()
        from carbon.helpers.cryptocompare import CryptoCompare as CC
        dp = CC.DATAPATH
        CC.DATAPATH = disk.root
        prov = Provider(None, p["world"])
        try:
            with disk, prov:
                self.run(p, res, disk, prov, CC)
        finally:
            sys.stdout, sys.stderr = so, se
            CC.DATAPATH = dp
            for k in ("CCAPIKEY", "MYKEY"):
                os.environ.pop(k, None)
                if k in env:
                    os.environ[k] = env[k]
            disk.close()
        return res

    def client(self, d, CC, res, i):
        """-> (client, key it must use) or None"""
        for k, v in d["env"].items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = KEYS[v]
        a = d["apikey"]
        key = True if a is True else KEYS[a] if a is not None else None
        want = key
        if key is None:
            v = d["env"].get(d["name"] or "CCAPIKEY")
            want = KEYS[v] if v is not None else None
        kw = {k: v for k, v in (("apikey", key), ("apikeyname", d["name"]), ("raiseonerror", d["roe"])) if v is not None}
        buf = sys.stdout = io.StringIO()
        try:
            c = CC(**kw)
        except Exception as e:
            c = None
            if want is not None or not isinstance(e, RuntimeError):
                self.bad(res, "C28", "client refused", f"client {d}: {e!r}", i)
        else:
            if want is None:
                self.bad(res, "C28", "client without key", f"client {d} was created although no key is configured", i)
                c = None
        if any(k in buf.getvalue() for k in KEYS):
            self.bad(res, "C28", "key printed", f"creating client {d} printed {buf.getvalue()[:300]!r}", i)
        return None if c is None else (c, want, d["roe"] is not False)

    def bad(self, res, pid, kind, msg, i):
        if pid == self.pid:
            res.violate(kind, msg, i)

    def call(self, c, o):
        kind = o["op"]
        if kind == "query":
            return getattr(c, "query_" + o["name"])()
        if kind == "cached":
            kw = {k: o[x] for k, x in (("readonfail", "rof"), ("updateonfail", "uof")) if o[x] is not None}
            return getattr(c, "cache_" + o["name"])(**kw)
        if kind == "pair":
            kw = dict(fsym=o["fsym"], tsym=o["tsym"], e=o["e"], limit=o["limit"], toTs=o["toTs"], aspandas=o["aspandas"])
            if o["alias"]:
                return getattr(c, {"day": "query_dailypair", "hour": "query_hourlypair", "minute": "query_minutelypair"}[o["freq"]])(**kw)
            return c.query_freqlypair(o["freq"], **kw)
        if kind == "aggr":
            pairs = ", ".join(o["pairs"]) if o["str"] else tuple(tuple(x.split("/")) for x in o["pairs"])
            return c.aggr_query(pairs, fields=o["fields"], incl_raw=o["raw"], incl_raw_aggr=o["rawaggr"], incl_grand_aggr=o["grand"],
                                freq=o["freq"], **o["kw"])
        if kind == "generic":
            return c.query(o["path"], o["params"], o["method"])
        if kind == "pairs":
            a, b = o["coins"], o["quotes"]
            if o["str"]:
                a, b = ", ".join(a), b and ",".join(b)
            return c.create_pairs(a, b)
        if kind == "write":
            v = mkval(o["val"]) if not o.get("un") else [mkval(o["val"]), lambda: 0]
            r = c.write_cache(o["item"], v)
            if isinstance(v, list):
                v.append("changed after the write")
            elif isinstance(v, dict):
                v["changed"] = "after the write"
            return r
        return c.cache(o["item"])

    def run(self, p, res, disk, prov, CC):
        cl = [self.client(d, CC, res, None) for d in p["clients"]]
        cache = {}                   # item -> (values it may hold, whether it may be missing)
        hist = []
        for i, o in enumerate(p["ops"]):
            if res.violations:
                return
            if o["op"] == "restart":
                cl[o["c"]] = self.client(o["client"], CC, res, i)
                hist.append("R")
                continue
            if cl[o["c"]] is None:
                continue
            c, key, roe = cl[o["c"]]
            prov.script = list(o.get("net", []))
            n0 = len(prov.log)
            at, kd, part = o.get("disk", [None, None, 0])
            disk.reset(at, kd, part)
            before = {k: v for k, v in disk.contents().items()}
            buf = sys.stdout = sys.stderr = io.StringIO()
            exc = out = None
            crashed = False
            try:
                out = self.call(c, o)
            except Crash:
                crashed = True
            except Exception as e:
                exc = e
            crashed = crashed or disk.dead
            sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
            fired = disk.fired
            steps = disk.n
            disk.reset()
            reqs = prov.log[n0:]
            res.simtime += len(reqs) + steps
            if fired:
                res.faults["disk " + fired.split(": ")[1] + " on " + fired.split()[0]] += 1
            for r in reqs:
                if r[4] != "ok":
                    res.faults["network " + r[4]] += 1
            oc = "crash" if crashed else type(exc).__name__ if exc else "none" if out is None else "value"
            hist.append([o["op"], [r[4] for r in reqs], fired, oc])
            res.trace.append(json.dumps([hist[-1], h8(norm(out))]))
            res.states.add(h8([o["op"], [r[4] for r in reqs][:3], fired and fired.split()[0] + kd, oc, roe]))
            if crashed:
                cl[o["c"]] = (CC(apikey=key, raiseonerror=roe), key, roe)
            desc = f"op {i} {o} (raiseonerror={roe}, provider {[r[4] for r in reqs]}{', disk fault ' + fired if fired else ''})"
            self.judge_key(i, o, desc, key, reqs, buf.getvalue(), exc, disk, res)
            if o["op"] in ("query", "pair", "aggr", "generic", "pairs"):
                if disk.contents() != before:
                    self.bad(res, "C27", "query touched the cache", f"{desc}: changed {sorted(disk.contents())}", i)
                self.judge_query(i, o, desc, c, roe, reqs, out, exc, res)
            else:
                self.judge_cache(i, o, desc, c, roe, reqs, out, exc, crashed, fired and kd != "short", cache, res)
            res.nontrivial = res.nontrivial or bool(reqs or steps)
        res.inter.add(h8(hist))

    # ------------------------------------------------------------ oracles
    def judge_key(self, i, o, desc, key, reqs, printed, exc, disk, res):
        for k in KEYS:
            if k in printed:
                self.bad(res, "C28", "key printed", f"{desc}: printed {printed[:400]!r}", i)
            for fn, b in disk.contents().items():
                if k.encode() in b:
                    self.bad(res, "C28", "key stored", f"{desc}: file {fn} contains the key", i)
            if exc is not None and not isinstance(exc, OSError) and k in repr(exc):
                self.bad(res, "C28", "key in an error", f"{desc}: {exc!r}", i)
        for m, url, q, body, b, served, hd in reqs:
            if not url.startswith("https://min-api.cryptocompare.com/"):
                self.bad(res, "C28", "request sent elsewhere", f"{desc}: {url}", i)
            want = None if key is True else key
            if q.get("api_key") != want or any(k in str(hd) for k in KEYS if k != want):
                self.bad(res, "C28", "wrong key sent", f"{desc}: request {url} carries {q.get('api_key')!r}, the client's key is {want!r}", i)

    ENDP = {"allexchanges": "/data/v4/all/exchanges", "ratelimit": "/stats/rate/limit", "coinlist": "/data/all/coinlist",
            "indexlist": "/data/index/list"}

    def failure(self, i, desc, roe, b, out, exc, res, pid="C26"):
        """the provider did not give data: an error, or None when errors are switched off"""
        if exc is None and out is not None:
            self.bad(res, pid, "failed query returned data", f"{desc}: returned {brief(out)}", i)
        elif roe and exc is None:
            self.bad(res, pid, "failed query not reported", f"{desc}: returned None", i)
        elif not roe and exc is not None and b not in GARBLED:
            self.bad(res, pid, "error raised although switched off", f"{desc}: {exc!r}", i)
        elif roe and b in STATUS + API and not isinstance(exc, RuntimeError):
            self.bad(res, pid, "query fails with an internal error", f"{desc}: {exc!r}", i)

    def judge_query(self, i, o, desc, c, roe, reqs, out, exc, res):
        from urllib.parse import urlsplit

        def bad(kind, msg):
            self.bad(res, "C26", kind, f"{desc}: {msg}", i)
        if o["op"] == "pairs":
            want = [(a, b) for b in (o["quotes"] or o["coins"]) for a in o["coins"] if a != b]
            if exc is not None or out is None or [tuple(x) for x in out] != want or reqs:
                bad("wrong pairs", f"{out} ({exc!r}), must be {want}")
            elif [(x.tknb, x.tknq) for x in out] != want:
                bad("wrong pairs", f"{out}: base and quote must be {want}")
            return
        if o["op"] == "generic" and o["method"] in ("POST", "PUT"):
            if exc is None or reqs:
                bad("unsupported method accepted", f"{[r[:2] for r in reqs]}")
            return
        for m, url, q, body, b, served, hd in reqs:
            if m != "GET" or body:
                bad("wrong request", f"{m} {url} {body!r}")
        asked = [(urlsplit(r[1]).path, {k: v for k, v in r[2].items() if k != "api_key"}) for r in reqs]
        if o["op"] == "query":
            want = [(self.ENDP[o["name"]], {})]
        elif o["op"] == "generic":
            want = [(o["path"], {k: str(v) for k, v in (o["params"] or {}).items() if v is not None})]
        else:
            def rq(f, t, freq, e=None, limit=False, toTs=None):
                import pandas as pd
                d = {"fsym": f, "tsym": t or "usd", "e": e, "limit": 2000 if limit is False else limit,
                     "toTs": toTs if toTs is None or isinstance(toTs, (int, float)) else int(pd.Timestamp(toTs).timestamp())}
                return (f"/data/v2/histo{freq}", {k: str(v) for k, v in d.items() if v is not None})
            if o["op"] == "pair":
                want = [rq(o["fsym"], o["tsym"], o["freq"], o["e"], o["limit"], o["toTs"])]
            else:
                want = [rq(*x.split("/"), o["freq"] or "day", **o["kw"]) for x in o["pairs"]]
        failed = [r[4] for r in reqs if r[5] is None]
        if o["op"] == "generic":
            # the raw response: anything the provider answers with status 200 is handed over as it came
            failed = [b for b in failed if b in TRANSPORT + STATUS]
        key = lambda x: json.dumps(x, sort_keys=True)
        if failed:
            if any(key(a) not in map(key, want) for a in asked):
                bad("wrong request", f"asked {asked}, must be among {want}")
                return
            self.failure(i, desc, roe, failed[0] if len(set(failed)) == 1 else "html", out, exc, res)
            return
        if sorted(map(key, asked)) != sorted(map(key, want)):
            bad("wrong request", f"asked {asked}, must be {want}")
            return
        if exc is not None or out is None:
            bad("answered query reported as failed", f"{exc!r}")
            return
        if o["op"] == "generic":
            if out.status_code != 200 or reqs[0][5] is not None and norm(out.json().get("Data")) != norm(reqs[0][5]):
                bad("wrong data", f"{out}, the provider said {brief(reqs[0][5])}")
        elif o["op"] == "query":
            if norm(out) != norm(reqs[0][5]):
                bad("wrong data", f"{brief(out)}, the provider said {brief(reqs[0][5])}")
        elif o["op"] == "pair":
            if not o["aspandas"]:
                if norm(out) != norm(reqs[0][5]):
                    bad("wrong data", f"{brief(out)}, the provider said {brief(reqs[0][5])}")
            else:
                e = self.frame(reqs[0][5])
                if norm(out) != norm(e):
                    bad("wrong data", f"table {brief(norm(out), 500)}, must be {brief(norm(e), 500)}")
        else:
            self.judge_aggr(o, [r[5] for r in sorted(reqs, key=lambda r: [key(w) for w in want].index(
                key((urlsplit(r[1]).path, {k: v for k, v in r[2].items() if k != "api_key"}))))], out, bad)

    COLS = ["open", "close", "high", "low", "volumefrom", "volumeto"]

    def frame(self, served):
        import pandas as pd
        rows = served["Data"]
        return pd.DataFrame({k: [r[k] for r in rows] for k in self.COLS}, index=[pd.Timestamp(r["time"], unit="s") for r in rows])

    def judge_aggr(self, o, served, out, bad):
        import pandas as pd
        fr = {pr: self.frame(s) for pr, s in zip(o["pairs"], served)}
        fields = o["fields"] or "close"
        fields = [x.strip() for x in fields.split(",")] if isinstance(fields, str) else fields
        if set(out) != {"gaggr", "aggr", "rawaggr", "raw"}:
            bad("wrong result", f"keys {sorted(out)}")
            return

        def eq(what, got, want):
            if norm(got) != norm(want):
                bad("wrong data", f"{what} is {brief(norm(got), 500)}, must be {brief(norm(want), 500)}")
                return False
            return True
        ok = eq("raw", out["raw"], fr if o["raw"] else None)
        ok = ok and eq("rawaggr", out["rawaggr"], pd.concat(fr, axis=1) if o["rawaggr"] else None)
        if ok and list(out["aggr"]) != list(fields):
            bad("wrong data", f"aggregates for {list(out['aggr'])}, must be {fields}")
            return
        ag = {}
        for f in fields:
            d = pd.concat({((f, pr) if o["grand"] else pr): fr[pr][f] for pr in o["pairs"]}, axis=1)
            ag[f] = d
            ok = ok and eq(f"aggr[{f}]", out["aggr"][f], d)
        ok and eq("gaggr", out["gaggr"], pd.concat(list(ag.values()), axis=1) if o["grand"] else None)

    def judge_cache(self, i, o, desc, c, roe, reqs, out, exc, crashed, fault, cache, res):
        def bad(kind, msg):
            self.bad(res, "C27", kind, f"{desc}: {msg}", i)
        kind = o["op"]
        item = "query_" + o["name"] if kind == "cached" else o["item"]
        vals, missing = cache.get(item, ([], True))
        if kind == "write":
            new = norm(mkval(o["val"]))
            if reqs:
                bad("cache access asked the provider", f"{[r[1] for r in reqs]}")
            if o.get("un"):
                # a value that can not be stored
                cache[item] = (vals, True)
                if crashed:
                    return
                if exc is None and out is not None:
                    bad("failed cache write not reported", f"returned {out!r} for a value that can not be stored")
                elif roe and exc is None:
                    bad("failed cache write not reported", "returned None")
                elif not roe and exc is not None:
                    bad("error raised although switched off", f"{exc!r}")
                return
            if crashed:
                cache[item] = (vals + [new], True)
            elif exc is not None or out is None:
                cache[item] = (vals + [new], True)
                if not fault:
                    bad("cache write failed", f"{exc!r}")
                elif roe and exc is None:
                    bad("failed cache write not reported", "returned None")
                elif not roe and exc is not None:
                    bad("error raised although switched off", f"{exc!r}")
            else:
                if out != item:
                    bad("wrong result", f"write_cache returned {out!r}")
                cache[item] = ([new], False)
                if fault:
                    cache[item] = ([new], False)      # reported as written: must be there
            return
        if crashed:
            if kind == "cached":
                cache[item] = (vals + [norm(r[5]) for r in reqs if r[5] is not None], True)
            return
        if kind == "read":
            if reqs:
                bad("cache access asked the provider", f"{[r[1] for r in reqs]}")
            if exc is None and out is not None:
                if norm(out) not in vals:
                    bad("cache returned what was never stored", f"{brief(out)}")
            elif not missing and not fault:
                bad("stored item not found", f"{exc!r}")
            elif roe and exc is None:
                bad("missing item not reported", "returned None")
            elif not roe and exc is not None:
                bad("error raised although switched off", f"{exc!r}")
            return
        rof = o["rof"] is not False or bool(o["uof"])
        uof = bool(o["uof"])
        if not reqs:
            if exc is None and out is not None:
                if norm(out) not in vals:
                    bad("cache returned what was never stored", f"{brief(out)}")
                return
            if not missing and not fault:
                bad("stored item not found", f"{exc!r}")
            elif rof and missing and not vals:
                bad("cache miss not answered from the provider", f"{exc!r}, returned {out!r}")
            elif roe and exc is None:
                bad("missing item not reported", "returned None")
            elif not roe and exc is not None:
                bad("error raised although switched off", f"{exc!r}")
            return
        if not rof:
            bad("cache miss asked the provider", "although readonfail is off")
            return
        if not missing and not fault:
            bad("cached item fetched again", f"{[r[1] for r in reqs]}")
            return
        if len(reqs) != 1:
            bad("more than one request", f"{[r[1] for r in reqs]}")
            return
        served, b = reqs[0][5], reqs[0][4]
        if served is None:
            if exc is None and out is not None:
                bad("failed query returned data", f"returned {brief(out)}")
            elif roe and exc is None:
                bad("failed query not reported", "returned None")
            elif not roe and exc is not None and b not in GARBLED:
                bad("error raised although switched off", f"{exc!r}")
            return
        if exc is not None or out is None:
            if not (fault and uof and exc is not None and roe):
                bad("answered query reported as failed", f"{exc!r}")
            cache[item] = (vals + [norm(served)], True)
            return
        if norm(out) != norm(served):
            bad("wrong data", f"{brief(out)}, the provider said {brief(served)}")
        if uof:
            cache[item] = (vals + [norm(served)], True) if fault else ([norm(served)], False)


class C26(_CC):
    pid = "C26"
    quick_runs = 600
    thorough_runs = 20000
    weights = {"query": 3, "pair": 4, "aggr": 3, "restart": 1, "generic": 2, "pairs": 1}
    pnet = .45
    assumptions = ["the provider answers in its documented envelope or not at all", "no pair is requested twice in one aggregate"]


class C27(_CC):
    pid = "C27"
    quick_runs = 1500
    thorough_runs = 30000
    weights = {"cached": 6, "write": 4, "read": 4, "query": 1, "restart": 1}
    pnet = .35
    pdisk = .35
    assumptions = ["process crash: what was written before stays, what was buffered is lost; no loss of written data by a power failure",
                   "cache files are only written through this class"]


class C28(_CC):
    pid = "C28"
    quick_runs = 900
    thorough_runs = 20000
    weights = {"query": 3, "pair": 3, "aggr": 1, "cached": 3, "write": 1, "read": 1, "restart": 3, "generic": 2}
    pnet = .5
    pdisk = .2
    assumptions = ["errors raised by the network library itself (which quote the URL) are outside the property"]


# ------------------------------------------------------------------ C29
class C29(Scenario):
    pid = "C29"
    quick_runs = 1500
    thorough_runs = 30000
    time_unit = "disk steps"
    real = ["carbon.helpers.fls", "carbon.helpers.pdread", "carbon.helpers.helpers.listdir", "carbon.helpers.simulation.StartConditions",
            "gzip, json, pickle, pandas"]
    stub = STUB_CC[1:2] + ["standard output"]
    assumptions = ["process crash: what was written before stays, what was buffered is lost; no loss of written data by a power failure",
                   "text contains no carriage returns (Python text files translate them)", "files are loaded with the options they were saved with"]
    rule = ("a simulated run is non-trivial when a file was read back; distinct histories are counted by the sequence of (operation, "
            "options, disk fault fired, outcome)")
    MODES = [{}, {"binary": True}, {"json": True}, {"compressed": True}, {"json": True, "compressed": True}]

    def generate(self, rng, tier):
        ops = []
        for _ in range(rng.randint(3, 12) * (1 if tier == "quick" else rng.choice([1, 2, 4]))):
            k = rng.choices(["save", "load", "frame", "pdread", "cols", "sc", "ls"], [5, 5, 2, 5, 1, 1, 1])[0]
            o = {"op": k, "f": rng.randrange(3)}
            if k in ("save", "load"):
                o["mode"] = rng.randrange(5)
                o["val"] = rng.getrandbits(24)
                o["refuse"] = rng.random() < .12
                o["split"] = rng.random() < .5
                o["wrap"] = k == "save" and rng.random() < .2
                o["quiet"] = rng.random() < .5
            if k in ("frame", "sc"):
                o["val"] = rng.getrandbits(24)
            if k == "pdread":
                a, b = sorted([rng.random(), rng.random()])
                o.update(col=rng.choice([None, 0, 1, "ETH/USD", "BTC / USD"]), frm=rng.choice([None, None, "ts", "pc", "early"]), a=a,
                         per=rng.choice([None, None, "days", "pc"]), b=rng.choice([b - a, b - a, b - a, 0]), contra=rng.choice([None] * 8 + ["from", "period"]), mind=rng.choice([None, None, None, .3]), inv=rng.random() < .3,
                         tkns=rng.random() < .4, spoil=rng.random() < .4)
            if k != "frame" and rng.random() < .35:
                o["disk"] = [rng.choice([0, 0, 1, 1, 2, 3, 5, 8]), rng.choice(["EACCES", "EMFILE", "ENOSPC", "EIO", "short", "crash", "crash"]), rng.choice([0, 0, .3, .5, .99])]
            ops.append(o)
            if k == "save" and "disk" in o and rng.random() < .5:
                ops.append({"op": "load", "f": o["f"], "mode": o["mode"], "val": 0, "refuse": False, "split": False, "wrap": False, "quiet": True})
        return {"ops": ops}

    def shrink_fields(self, op):
        if "disk" in op:
            yield {x: v for x, v in op.items() if x != "disk"}

    def payload(self, mode, seed):
        r = random.Random(seed)
        if mode == 1:
            return bytes(r.getrandbits(8) for _ in range(r.choice([0, 3, 900])))
        if mode in (2, 4):
            return {"a": [r.random() for _ in range(r.randint(0, 80))], "b": None, "é": {"x": True, "n": r.randint(-9, 9)}, "s": "q\"\n\t"}
        return "\n".join(r.choice(["line", "ünï", "", "{x}", "a,b,c" * 20, "end "]) for _ in range(r.randint(0, 40)))

    def frame(self, seed):
        import pandas as pd
        r = random.Random(seed)
        n = r.randint(2, 60)
        step = r.choice([pd.Timedelta(days=1), pd.Timedelta(hours=1), pd.Timedelta(minutes=37)])
        ix = pd.Index([pd.Timestamp("2020-06-01") + i * step for i in range(n)], name="datetime")
        gap = r.choice([0, 0, .1])
        hole = lambda v: v if r.random() >= gap else float("nan")
        return pd.DataFrame({"ETH/USD": [hole(r.random() + .1) for _ in range(n)], "BTC / USD": [r.random() * 100 + 1 for _ in range(n)]}, index=ix)

    @staticmethod
    def refusing(mode, val=0):
        """data that can not be saved in this mode"""
        if mode == 3 and val & 1:
            return "no such character: \ud800 in any encoding"
        return {0: b"bytes into a text file", 1: "text into a binary file", 2: {"x": object}, 3: 17, 4: {"y": {1, 2}}}[mode]

    def execute(self, p):
        res = Result()
        so = sys.stdout
        disk = Disk()
        try:
            with disk:
                self.run(p, res, disk)
        finally:
            sys.stdout = so
            disk.close()
        return res

    def run(self, p, res, disk):
        from carbon.helpers.fls import fsave, fload
        from carbon.helpers.pdread import pdread, pdcols, pathtime, pathtime_yrs, pathtime_days
        from carbon.helpers.helpers import listdir
        from carbon.helpers.simulation import StartConditions
        import pandas as pd
        files = {}       # name -> (mode, acceptable payloads, may be unreadable)
        frames = {}
        hist = []
        W = "<b>{}</b>"
        for i, o in enumerate(p["ops"]):
            if res.violations:
                return
            k = o["op"]
            nm = f"file{o['f']}.dat"
            pk = os.path.join(disk.root, f"frame{o['f']}.pickle")
            if k == "frame":
                df = self.frame(o["val"])
                df.to_pickle(pk)
                frames[pk] = df
                continue
            exc = out = None
            crashed = False
            where = dict(fn=nm, path=disk.root) if o.get("split") else dict(fn=os.path.join(disk.root, nm))
            before = disk.contents()
            mode = o.get("mode")
            if k == "load":
                if nm not in files:
                    mode = 0
                else:
                    mode = files[nm][0]
            if k in ("pdread", "cols") and pk not in frames:
                frames[pk] = self.frame(i)
                frames[pk].to_pickle(pk)
            if k == "pdread":
                kw, want = self.window(o, frames[pk])
            if k == "sc":
                d = self.conditions(o["val"])
                scf = os.path.join(disk.root, f"sc{o['f']}.bin")
                import pickle
                with open(scf, "wb") as f:
                    pickle.dump(d, f)
            before = disk.contents()
            at, kd, part = o.get("disk", [None, None, 0])
            disk.reset(at, kd, part)
            sys.stdout = io.StringIO()
            try:
                if k == "save":
                    data = self.refusing(mode, o["val"]) if o["refuse"] else self.payload(mode, o["val"])
                    kw = dict(self.MODES[mode])
                    if o["wrap"] and mode in (0, 3) and not o["refuse"]:
                        kw["wrapper"] = W
                    out = fsave(data, quiet=o["quiet"], **where, **kw)
                elif k == "load":
                    out = fload(quiet=o["quiet"], **where, **self.MODES[mode])
                elif k == "pdread":
                    out = pdread(pk, **kw)
                    n_out = norm(out)
                    if o["spoil"]:
                        x = out[0] if isinstance(out, tuple) else out
                        x.iloc[:] = -1
                elif k == "cols":
                    x = frames[pk]["ETH/USD"]
                    out = list(pdcols(pk)), pathtime(x), pathtime_yrs(x), pathtime_days(x)
                elif k == "sc":
                    s = StartConditions.load(scf)
                    out = [list(map(float, s.path)), [str(t) for t in s.path.index], s.num_points, s.strategy_carbon]
                    x = out[3]
                    out[3] = [x.p_sell_b, x.p_sell_a, x.p_buy_a, x.p_buy_b, x.psell_marginal, x.pbuy_marginal, x.amt_rsk, x.amt_csh,
                              s.starting_portfolio_valuation] + list(s.uni_ranges_raw)
                else:
                    out = [listdir(disk.root), listdir(disk.root, ".DAT"), listdir(disk.root, ".pickle")]
            except Crash:
                crashed = True
            except Exception as e:
                exc = e
            crashed = crashed or disk.dead
            sys.stdout = sys.__stdout__
            fired, steps = disk.fired, disk.n
            disk.reset()
            res.simtime += steps
            fault = fired and kd != "short"
            if fired:
                res.faults["disk " + kd + " on " + fired.split()[0]] += 1
            oc = "crash" if crashed else type(exc).__name__ if exc else "ok"
            hist.append([k, mode, fired, oc])
            res.trace.append(json.dumps([hist[-1], h8(norm(out))]))
            res.states.add(h8([k, mode, fired and fired.split()[0] + kd, oc, o.get("refuse"), o.get("frm"), o.get("per")]))
            desc = f"op {i} {o}{', disk fault ' + fired if fired else ''}"
            after = disk.contents()
            if k == "save":
                new = None
                if not o["refuse"]:
                    new = self.payload(mode, o["val"])
                    if o["wrap"] and mode in (0, 3):
                        new = W.format(new)
                    new = norm(new)
                others = {f for f in set(before) | set(after) if before.get(f) != after.get(f)} - {nm}
                if others and not (crashed or exc):
                    res.violate("other files changed", f"{desc}: {sorted(others)}", i)
                old = files.get(nm, (mode, [], True))
                if o["refuse"]:
                    if exc is None and not crashed:
                        res.violate("unsaveable data accepted", f"{desc}: saved {self.refusing(mode, o['val'])!r}", i)
                    elif mode in (2, 3, 4) and not fired and before != after:
                        res.violate("refused save destroyed the file", f"{desc}: {exc!r}; file now {brief(after.get(nm))}", i)
                    if before != after:
                        files[nm] = (old[0], old[1], True) if mode in (2, 3, 4) else (mode, None, True)
                elif crashed or exc is not None:
                    if not fault and not crashed:
                        res.violate("save failed", f"{desc}: {exc!r}", i)
                    if before.get(nm) != after.get(nm):
                        files[nm] = (mode, None, True)     # interrupted in place: contents unspecified
                else:
                    files[nm] = (mode, [new], False)
                continue
            if before != after:
                res.violate("reading changed a file", f"{desc}: {sorted(f for f in set(before) | set(after) if before.get(f) != after.get(f))}", i)
                continue
            if crashed:
                continue
            if exc is not None:
                ok = fault or k == "load" and (nm not in files or files[nm][2]) or k == "pdread" and want is None
                if not ok:
                    res.violate("stored data can not be read", f"{desc}: {exc!r}", i)
                continue
            if fault and k != "ls" and fired.split()[0] in ("open", "read"):
                res.violate("disk error hidden", f"{desc}: returned {brief(out)}", i)
                continue
            res.nontrivial = True
            if k == "load":
                if nm not in files:
                    res.violate("missing file loaded", f"{desc}: returned {brief(out)}", i)
                elif mode in (2, 4) and not before.get(nm):
                    res.violate("damaged file loaded", f"{desc}: the file is empty, returned {brief(out)}", i)
                elif files[nm][1] is not None:
                    alt = [norm(out)] + ([norm(out.decode())] if mode == 3 and isinstance(out, bytes) else [])
                    if not any(a in files[nm][1] for a in alt):
                        res.violate("loaded data differs from saved data", f"{desc}: {brief(out, 300)}, saved {brief(files[nm][1], 300)}", i)
            elif k == "pdread":
                if want is None:
                    res.violate("contradictory request accepted", f"{desc}: {brief(out)}", i)
                elif n_out != norm(want):
                    res.violate("wrong data read", f"{desc}: {brief(n_out, 400)}, must be {brief(norm(want), 400)}", i)
            elif k == "cols":
                if out[0] != list(frames[pk].columns):
                    res.violate("wrong data read", f"{desc}: columns {out[0]}", i)
                t = frames[pk].index
                t = (t[-1] - t[0]).total_seconds() / 86400
                if any(abs(a - b) > 1e-9 * abs(b) + 1e-12 for a, b in zip(out[1:], (t / 365.25, t / 365.25, t))):
                    res.violate("wrong duration", f"{desc}: {out[1:]} for {t} days", i)
            elif k == "sc":
                n = len(d["filtered price chart"])
                t0, t1 = pd.Timestamp("2020-01-01"), pd.Timestamp("2021-01-01")
                if out[0] != [float(x) for x in d["filtered price chart"]] or out[2] != n or \
                        any(abs((pd.Timestamp(t) - (t0 + (t1 - t0) * j / (n - 1))).total_seconds()) > 1 + j for j, t in enumerate(out[1])):
                    res.violate("wrong data read", f"{desc}: {brief(out, 400)}", i)
                fl = lambda key: [float(x) for x in d[key]]
                w0, w1 = fl("carbon order weights")
                v, = fl("starting portfolio valuation")
                want = fl("carbon order boundaries") + fl("carbon starting prices") + [v * w0 / (w0 + w1) / out[0][0], v * w1 / (w0 + w1), v] + \
                    fl("uniswap range boundaries")
                if len(out[3]) != len(want) or any(abs(a - b) > 1e-9 * abs(b) + 1e-9 for a, b in zip(out[3], want)):
                    res.violate("wrong starting conditions", f"{desc}: {out[3]}, must be {want}", i)
            elif k == "ls":
                fs = sorted(before)
                want = [fs, [f[:-4] for f in fs if f.endswith(".dat")], [f[:-7] for f in fs if f.endswith(".pickle")]]
                want = [sorted(w) for w in want]
                if out != want:
                    res.violate("wrong listing", f"{desc}: {out}, must be {want}", i)
        res.inter.add(h8(hist))

    @staticmethod
    def conditions(seed):
        r = random.Random(seed)
        n = r.randint(2, 20)
        p = [str(50 + 10 * r.random()) for _ in range(n)]
        b = sorted((20 + 80 * r.random() for _ in range(4)), reverse=True)
        return {"filtered price chart": p, "carbon order weights": [str(r.choice([1, .25, 0])), str(r.choice([2, 1, .75]))],
                "carbon order boundaries": [str(x) for x in b], "carbon starting prices": [str(b[1] + (b[0] - b[1]) * r.random()), str(b[2])],
                "starting portfolio valuation": [str(r.choice([1000, 12.5]))], "uniswap range boundaries": ["40", "90"]}

    @staticmethod
    def window(o, df):
        """arguments of pdread and what it must return (None: contradictory)"""
        import pandas as pd
        kw = {"datacol": o["col"]}
        d0 = df
        if o["mind"] is not None:
            kw["min_dt"] = df.index[int(o["mind"] * (len(df) - 1))]
            d0 = df[df.index >= kw["min_dt"]]
        span = d0.index[-1] - d0.index[0]
        lo = d0.index[0]
        if o["frm"] == "ts":
            lo = d0.index[int(o["a"] * (len(d0) - 1))]
            kw["from_ts"] = str(lo)
        elif o["frm"] == "early":
            kw["from_ts"] = "1999-01-01"
        elif o["frm"] == "pc":
            kw["from_pc"] = o["a"]
            lo = d0.index[0] + o["a"] * span
        hi = d0.index[-1]
        if o["per"] == "days":
            days = o["b"] * span / pd.Timedelta(days=1)
            kw["period_days"] = days
            hi = lo + days * pd.Timedelta(days=1)
        elif o["per"] == "pc":
            kw["period_pc"] = o["b"]
            hi = lo + (o["b"] * span / pd.Timedelta(days=1)) * pd.Timedelta(days=1)
        contra = False
        if o.get("contra") == "from":
            contra = True
            kw.update(from_ts=str(lo), from_pc=o["a"])
        elif o.get("contra") == "period":
            contra = True
            kw.update(period_days=o["b"] + 1, period_pc=o["b"])
        if o["inv"]:
            kw["invert"] = True
        if o["tkns"]:
            kw["tkns"] = True
        if contra:
            return kw, None
        r = d0[(d0.index >= lo) & (d0.index <= hi)]
        if o["col"] is None:
            return kw, None if o["inv"] else r
        s = r[o["col"]] if isinstance(o["col"], str) else r.iloc[:, o["col"]]
        s = 1 / s if o["inv"] else s
        if o["tkns"]:
            t = tuple(x.strip() for x in o["col"].split("/")) if isinstance(o["col"], str) else ("RSK", "CSH")
            return kw, (s, t[::-1] if o["inv"] else t)
        return kw, s
