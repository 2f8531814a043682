"""
C34 curve containers: contents, lookups and persistence
C35 shared variables and parameter objects
"""
import io
import json
import math
import os
import pickle
import random
import sys

from . import boot  # noqa: F401
from .core import Scenario, Result, h8
from .dataworld import Disk, Crash
from .fault import Tracer, NullOut, pick_site
from .props_arb import gen_curves, build, TOK, Clock

REAL = ["carbon.tools.cpc (curves, pairs, inverters, containers)", "carbon.tools.optimizer (pickle)", "carbon.tools.tokenscale", "pandas", "pickle"]
STUB = ["disk (real files in a scratch directory, faults at each system call)", "clock", "standard output"]


def key(c):
    return (c.k, c.x, c.x_act, c.y_act, c.pair, c.cid, c.fee, c.descr)


def primary(pair):
    from carbon.tools.cpc import Pair
    num = Pair.NUMERAIRE_TOKENS
    b, q = pair.split("/")
    ib, iq = (num.get(t.split("-")[0], 1e10) for t in (b, q))
    first = b < q if ib == iq else iq < ib
    return (pair, True) if first else (f"{q}/{b}", False)


class Quiet(Scenario):
    def execute(self, p):
        import carbon.tools.optimizer as om
        res = Result()
        so, tm = sys.stdout, om.time
        sys.stdout = NullOut()
        self.disk = None
        try:
            self.run(p, res)
        finally:
            sys.stdout = so
            om.time = tm
            if self.disk:
                self.disk.close()
        return res


def given(d):
    """the parameters of a curve the way the client passes them: as dict, or as text (python or json)"""
    prm = d["prm"]
    if not prm or d.get("prmas", "dict") == "dict":
        return dict(prm) if prm else prm
    if d["prmas"] == "repr" or "'" in json.dumps(prm):
        return repr(prm)
    return json.dumps(prm)


class C34(Quiet):
    pid = "C34"
    time_unit = "operations"
    real, stub = REAL, STUB
    quick_runs = 700
    rule = ("a run is non-trivial when a container of at least two curves was queried or stored; distinct histories are counted by the sequence of "
            "(operation, container, outcome, fault), distinct states by the digest of the contents of all containers")

    def generate(self, rng, tier):
        toks = rng.sample(TOK, rng.randint(2, 5))
        curves = gen_curves(rng, toks, rng.randint(3, 10))
        auto = rng.choice([0, 0, .3])
        for j, c in enumerate(curves):
            c["auto"] = rng.random() < auto          # id given by the container
            c["prm"] = rng.choice([None, None, {"exchange": "bancor_v2"}, {"exchange": "uni's \"v3\"", "n": {"a": 1, "b": None}, "ok": True},
                                   {"ok": False, "n": {"a": 0, "s": ""}, "w": [1, 2]}])
            c["prmas"] = rng.choice(["dict", "dict", "repr", "json"])
            if c["kind"] == "uv3" and rng.random() < .15:
                c["p"] = rng.choice([c["pa"] * (1 + 1e-9), c["pb"] * (1 - 1e-9)])     # sold out on one side
            c["fd"] = [rng.choice([0, 0.003]), rng.choice(["", "v2, 0.3%", "x;y"])]
        ops = []
        if rng.random() < .8:
            ops.append({"op": "new", "s": 0, "seed": 0, "how": "list", "c": [rng.randrange(99) for _ in range(rng.randint(2, 6))], "scale": rng.random() < .2})
        for _ in range(rng.randint(5, 22) * (1 if tier == "quick" else rng.choice([1, 3]))):
            k = rng.choices(["new", "add", "filter", "query", "exec", "save", "load", "list"], [1, 5, 2, 6, 2, 3, 3, 1])[0]
            o = {"op": k, "s": rng.choice([0, 0, 1, 2]), "seed": rng.getrandbits(30)}
            if k == "add":
                o.update(how=rng.choice(["one", "one", "inv", "list", "gen", "iadd", "self", "other", "broken", "junk"]), c=[rng.randrange(99) for _ in range(rng.randint(1, 3))])
            if k == "new":
                o.update(how=rng.choice(["list", "gen", "inv", "copy"]), c=[rng.randrange(99) for _ in range(rng.randint(0, 4))], scale=rng.random() < .4)
            if k == "filter":
                o.update(how=rng.choice(["bycids", "exclude", "bypair", "directed", "bypairs", "bypairsd", "bytknx", "bytkny", "bytknxs", "bytknys", "copy"]),
                         out=rng.choice(["cc", "cc", "tuple", "gen"]), to=rng.randrange(3))
            if k in ("save", "load"):
                o.update(fmt=rng.choice(["csv", "pickle"]), f=rng.randrange(2))
                if rng.random() < .5:
                    o["fault"] = [rng.getrandbits(20), rng.getrandbits(20)]
            if k == "list":
                o.update(how=rng.choice(["dicts", "df"]), to=rng.randrange(3))
            ops.append(o)
            if k == "save" and rng.random() < .7:
                ops.append({"op": "load", "s": rng.randrange(3), "seed": 0, "fmt": o["fmt"], "f": o["f"]})
        return {"curves": curves, "ops": ops}

    def shrink_fields(self, op):
        for k in ("fault",):
            if k in op:
                yield {x: v for x, v in op.items() if x != k}

    @staticmethod
    def make(d):
        from carbon.tools.cpc import ConstantProductCurve as CPC
        c = build(d)
        return CPC(k=c.k, x=c.x, x_act=c.x_act, y_act=c.y_act, pair=c.pair, cid=None if d["auto"] else c.cid, fee=d["fd"][0], descr=d["fd"][1],
                   constr=c.constr, params=given(d))

    class Model:
        def __init__(self, scale=None):
            self.cs, self.scale = [], scale

        def add(self, c, known):
            """known: id(curve) -> cid; curves without an id get their position"""
            if known.get(id(c), c.cid) is None:
                known[id(c)] = len(self.cs)
            self.cs.append(c)

    def take(self, m, cs, scaleof):
        for c in cs:
            if self.cid[id(c)] is None:
                self.cid[id(c)] = len(m.cs)
            m.cs.append(c)
            scaleof[id(c)] = m.scale

    def run(self, p, res):
        import carbon.tools.optimizer as om
        import carbon.tools.tokenscale as ts
        from carbon.tools.cpc import CPCContainer as CC, CPCInverter
        pool = [self.make(d) for d in p["curves"]]
        self.keep = list(pool)
        self.cid = {id(c): c.cid for c in pool}
        self.prm = {id(c): d["prm"] or {} for c, d in zip(pool, p["curves"])}
        self.frozen = {id(c): (key(c)[:5], c.fee, c.descr, repr(c.params)) for c in pool}
        scaleof = {}
        slots = {0: (CC([]), self.Model())}
        self.disk = Disk()
        files = {}
        hist = []
        for i, o in enumerate(p["ops"]):
            if res.violations:
                return
            res.simtime += 1
            desc = f"op {i} {o}"
            rng = random.Random(o["seed"])
            s = o["s"] if o["s"] in slots else 0
            cc, m = slots[s]
            k, oc = o["op"], "ok"
            if k == "new":
                cs = [pool[j % len(pool)] for j in o["c"]]
                sc = ts.TokenScaleData if o["scale"] else None
                m2 = self.Model(sc)
                if o["how"] == "copy":
                    cs, m2.scale = list(m.cs), m.scale
                    c2 = cc.copy()
                else:
                    arg = cs if o["how"] == "list" else (x for x in cs) if o["how"] == "gen" else CPCInverter.wrap(cs)
                    c2 = CC(arg, tokenscale=sc) if sc else CC(arg)
                self.take(m2, cs, scaleof)
                slots[o["s"]] = (c2, m2)
            elif k == "add":
                oc = self.add(CC, CPCInverter, pool, slots, cc, m, o, rng, res, desc, i, scaleof, s)
            elif k == "filter":
                oc = self.filter(cc, m, slots, o, rng, res, desc, i, scaleof)
            elif k == "exec":
                oc = self.exec(cc, m, pool, rng, res, desc, i)
            elif k == "list":
                oc = self.list(CC, cc, m, slots, o, res, desc, i, scaleof)
            elif k == "query":
                self.query(cc, m, rng, res, desc, i, scaleof)
                if len(m.cs) > 1:
                    res.nontrivial = True
            else:
                oc = self.persist(om, CC, cc, m, slots, files, o, rng, res, desc, i, scaleof)
            for s_, (c_, m_) in slots.items():
                d = self.compare(c_, m_, scaleof)
                if d and not res.violations:
                    res.violate("container contents are wrong", f"{desc}: container {s_}: {d}", i)
            for c in self.keep:
                if (key(c)[:5], c.fee, c.descr, repr(c.params)) != self.frozen[id(c)] and not res.violations:
                    res.violate("a curve object was changed", f"{desc}: {self.frozen[id(c)]} is now {c}", i)
            hist.append([k, s, oc, len(m.cs)])
            res.trace.append(json.dumps([hist[-1], [[str(c.cid) for c in m_.cs] for _, (c_, m_) in sorted(slots.items())]]))
            res.states.add(h8([[(c.pair, round(math.log(c.x), 3)) for c in m_.cs] for _, (c_, m_) in sorted(slots.items())]))
        res.inter.add(h8(hist))

    def adopt(self, c):
        self.keep.append(c)
        self.cid[id(c)] = c.cid
        self.frozen[id(c)] = (key(c)[:5], c.fee, c.descr, repr(c.params))

    def compare(self, cc, m, scaleof):
        if len(cc.curves) != len(m.cs) or any(a is not b for a, b in zip(cc.curves, m.cs)):
            return f"holds {[(c.cid, c.pair) for c in cc.curves]}, must be {[(self.cid[id(c)], c.pair) for c in m.cs]}"
        for c in m.cs:
            if c.cid != self.cid[id(c)]:
                return f"curve has id {c.cid!r}, must be {self.cid[id(c)]!r}"
            sc = scaleof[id(c)]
            for t, v in ((c.tknx, c.scalex), (c.tkny, c.scaley)):
                w = sc.scale(t) if sc else 1
                if v != w:
                    return f"curve {c.cid} has scale {v} for {t}, must be {w}"
        return None

    def add(self, CC, Inv, pool, slots, cc, m, o, rng, res, desc, i, scaleof, s):
        how = o["how"]
        cs = [pool[j % len(pool)] for j in o["c"]]
        if how == "one":
            cs = cs[:1]
            r = cc.add(cs[0])
        elif how == "inv":
            cs = cs[:1]
            r = cc.add(Inv(cs[0]))
        elif how == "list":
            r = cc.add([c if rng.random() < .5 else Inv(c) for c in cs])
        elif how == "gen":
            r = cc.add(c for c in cs)
        elif how == "iadd":
            r = cc
            cc += cs
            if cc is not r:
                res.violate("wrong return value", f"{desc}: += gives another object", i)
        elif how == "self":
            cs = list(m.cs)
            if len(cs) > 20:
                return "big"
            r = cc.add(cc)
        elif how == "other":
            o2 = slots[rng.choice(sorted(slots))]
            cs = list(o2[1].cs)
            if len(cs) + len(m.cs) > 60:
                return "big"
            r = cc.add(o2[0])
        elif how == "junk":
            try:
                cc.add([cs[0], "not a curve"] if rng.random() < .5 else 5)
            except Exception:
                if len(cc) == len(m.cs) + 1 and cc.curves[-1] is cs[0]:
                    self.take(m, cs[:1], scaleof)
                return "refused"
            res.violate("junk accepted", f"{desc}", i)
            return "x"
        else:
            def feed():
                yield cs[0]
                raise OSError(5, "injected: the source of the curves fails")
            try:
                cc.add(feed())
            except OSError:
                res.faults["source of curves fails"] += 1
                if len(cc) == len(m.cs) + 1 and cc.curves[-1] is cs[0]:
                    self.take(m, cs[:1], scaleof)
                return "failed"
            res.violate("failing source not reported", f"{desc}", i)
            return "x"
        if r is not cc:
            res.violate("wrong return value", f"{desc}: add does not return the container", i)
        self.take(m, cs, scaleof)
        return "ok"

    def filter(self, cc, m, slots, o, rng, res, desc, i, scaleof):
        how = o["how"]
        toks = sorted({t for c in m.cs for t in c.pair.split("/")}) or ["ETH", "USDC"]
        a, b = rng.choice(toks), rng.choice(toks)
        pr = f"{a}/{b}"
        kw = {"cc": {}, "tuple": {"ascc": False}, "gen": {"asgenerator": True}}[o["out"]]
        last = {self.cid[id(c)]: c for c in m.cs}
        ids = [c for c in last if rng.random() < .5]
        some = [t for t in toks if rng.random() < .6]
        if how == "bycids":
            rng.shuffle(ids)
            got, want = cc.bycids(ids, **kw), [last[c] for c in ids]
        elif how == "exclude":
            got, want = cc.bycids(exclude=set(ids), **kw), [c for c in m.cs if self.cid[id(c)] not in ids]
        elif how == "bypair":
            got, want = cc.bp(pr, **kw), [c for c in m.cs if c.pair == pr] + [c for c in m.cs if c.pair == f"{b}/{a}"]
        elif how == "directed":
            got, want = cc.bypair(pr, directed=True, **kw), [c for c in m.cs if c.pair == pr]
        elif how in ("bypairs", "bypairsd"):
            prs = {pr, f"{rng.choice(toks)}/{rng.choice(toks)}"}
            al = prs if how == "bypairsd" else prs | {"/".join(x.split("/")[::-1]) for x in prs}
            got = cc.bypairs(prs if rng.random() < .5 else ",".join(sorted(prs)), directed=how == "bypairsd", **kw)
            want = [c for c in m.cs if c.pair in al]
        elif how == "bytknx":
            got, want = cc.bytknx(a, **kw), [c for c in m.cs if c.pair.split("/")[0] == a]
        elif how == "bytkny":
            got, want = cc.bytkny(a, **kw), [c for c in m.cs if c.pair.split("/")[1] == a]
        elif how == "bytknxs":
            got, want = cc.bytknxs(", ".join(some) if rng.random() < .5 and some else some, **kw), [c for c in m.cs if c.pair.split("/")[0] in some]
        elif how == "bytknys":
            got, want = cc.bytknys(", ".join(some) if rng.random() < .5 and some else some, **kw), [c for c in m.cs if c.pair.split("/")[1] in some]
        else:
            got, want, kw = cc.copy(), list(m.cs), {}
        g = list(got)
        if how == "bypair" and a == b:
            want = []
        if len(g) != len(want) or any(x is not y for x, y in zip(g, want)):
            if sorted(map(id, g)) != sorted(map(id, want)) or how in ("bycids", "copy", "exclude"):
                res.violate("wrong curves found", f"{desc}: {[(c.cid, c.pair) for c in g]}, must be {[(c.cid, c.pair) for c in want]}", i)
                return "x"
            want = g
        if not kw:
            m2 = self.Model(m.scale)
            self.take(m2, want, scaleof)
            slots[o["to"]] = (got, m2)
            if got is cc:
                res.violate("wrong curves found", f"{desc}: the container itself, not a new one", i)
        return len(want)

    def exec(self, cc, m, pool, rng, res, desc, i):
        if not m.cs:
            return "empty"
        c = rng.choice(m.cs)
        f = rng.choice([0, .1, .5, .99, .9999, 1])
        try:
            n = c.execute(dx=-f * max(c.x_act, 0)) if rng.random() < .5 else c.execute(dy=-f * max(c.y_act, 0))
        except (ValueError, ZeroDivisionError):
            return "refused"
        if n is c or n.cid == c.cid or n in cc and key(n) not in {key(x) for x in m.cs}:
            res.violate("executed curve is not a new one", f"{desc}: {c} {n}", i)
        if {k: v for k, v in n.params.items() if k != "traded"} != {k: v for k, v in c.params.items() if k != "traded"}:
            res.violate("executed curve lost its parameters", f"{desc}: {c.params} {n.params}", i)
        self.adopt(n)
        pool.append(n)
        return "done"

    def same(self, a, b):
        """None or how two curves differ that must be equal"""
        if key(a) != key(b) or a.constr != b.constr or dict(a.params) != dict(b.params) or type(a.cid) is not type(b.cid):
            return f"{b!r}, must be {a!r}"
        if (a.p, a.y, a.x_min, a.y_min) != (b.p, b.y, b.x_min, b.y_min) or a.params != b.params:
            return f"{b!r}, must be {a!r}"
        for k in a.params:
            if b.P(k) != a.P(k):
                return f"parameter {k} is {b.P(k)!r}, must be {a.P(k)!r}"
        return None

    def equal(self, got, want):
        if len(got) != len(want):
            return f"{len(got)} curves, must be {len(want)}"
        for a, b in zip(want, got):
            d = self.same(a, b)
            if d:
                return d
        return None

    def list(self, CC, cc, m, slots, o, res, desc, i, scaleof):
        if not m.cs:
            return "empty"
        if o["how"] == "dicts":
            d = cc.asdicts()
            new = CC.from_dicts(d, tokenscale=m.scale)
            for x in d:
                x["params"]["junk"] = 1
        else:
            df = cc.asdf()
            new = CC.from_df(df if o["seed"] % 2 else df.reset_index(), tokenscale=m.scale)
        diff = self.equal(list(new), m.cs) if o["how"] == "df" else None
        if o["how"] == "dicts":
            for x in new:
                x.params.pop("junk", None)
            diff = self.equal(list(new), m.cs)
        if diff:
            res.violate("curves do not survive the round trip", f"{desc}: {diff}", i)
            return "x"
        m2 = self.Model(m.scale)
        for c in new:
            self.adopt(c)
        self.take(m2, list(new), scaleof)
        slots[o["to"]] = (new, m2)
        return "ok"

    def query(self, cc, m, rng, res, desc, i, scaleof):
        cs = m.cs
        toks = {t for c in cs for t in c.pair.split("/")}
        al = sorted(toks) + ["XYZ"]
        a, b = rng.choice(al), rng.choice(al)
        cid = {id(c): self.cid[id(c)] for c in cs}

        def chk(what, got, want):
            if got != want and not res.violations:
                res.violate("wrong answer of the container", f"{desc}: {what} is {got!r}, must be {want!r}", i)
        q = rng.randrange(13)
        if q == 9:
            self.estimates(cc, cs, al, a, b, rng, chk)
        elif q in (10, 11):
            self.analysis(cc, cs, cid, rng, chk)
            for c in cs:              # an analysis may select the curves into a container of the same scale
                if all(v == (m.scale.scale(t) if m.scale else 1) for t, v in ((c.tknx, c.scalex), (c.tkny, c.scaley))):
                    scaleof[id(c)] = m.scale
        elif q == 12:
            for c in cs:
                prm = self.prm.get(id(c))
                if prm is None:
                    continue
                n = prm.get("n", {})
                for k, w in (("exchange", prm.get("exchange")), ("ok", prm.get("ok")), (" ok ", prm.get("ok")), ("n:a", n.get("a")), ("n:s", n.get("s")), ("n:zz", None),
                             ("zz:a", None), ("w", prm.get("w"))):
                    chk(f"{c.cid}.P({k!r}) of {prm}", (c.P(k), type(c.P(k))), (w, type(w)))
                    if w is None and k.split(":")[-1].strip() not in (n if ":" in k else prm):
                        chk(f"{c.cid}.P({k!r}, 7) of {prm}", c.P(k, 7), 7)
                    elif w is not None:
                        chk(f"{c.cid}.P({k!r}, 7) of {prm}", c.P(k, 7), w)
        elif q == 0:
            chk("len", len(cc), len(cs))
            chk("cids", cc.cids(), tuple(cid[id(c)] for c in cs))
            chk("cids", cc.cids(asset=True), {cid[id(c)] for c in cs})
            chk("iteration", [id(c) for c in cc], [id(c) for c in cs])
            if cs:
                chk("[-1]", id(cc[-1]), id(cs[-1]))
                chk("[:2]", [id(c) for c in cc[:2]], [id(c) for c in cs[:2]])
        elif q == 1:
            chk("tokens", cc.tokens(), toks)
            chk("tokens_s", cc.tokens_s(), ",".join(sorted(toks)))
            chk("tknxs", cc.tknxs(), {c.pair.split("/")[0] for c in cs})
            chk("tknys", cc.tknys(), {c.pair.split("/")[1] for c in cs})
            chk("tknxl", cc.tknxl(), [c.pair.split("/")[0] for c in cs])
            chk("tknyl", cc.tknyl(), [c.pair.split("/")[1] for c in cs])
        elif q == 2:
            chk("pairs", cc.pairs(), {primary(c.pair)[0] for c in cs})
            chk("pairs (as is)", cc.pairs(standardize=False), {c.pair for c in cs})
        elif q == 3:
            for c in self.keep:
                ix = [j for j, x in enumerate(cs) if key(x) == key(c)]
                chk(f"curve {c.cid} in container", c in cc, bool(ix))
                # of equal curves any position is right
                if (cc.curveix(c) not in ix) if ix else cc.curveix(c) is not None:
                    chk(f"index of {c.cid}", cc.curveix(c), ix)
        elif q == 4:
            for x in {cid[id(c)] for c in cs} | {"nope"}:
                want = [c for c in cs if cid[id(c)] == x]
                got = cc.bycid(x)
                if (not any(got is c for c in want)) if want else got is not None:
                    chk(f"bycid({x!r})", got, want)
        elif q == 5:
            mine = [c for c in cs if set(c.pair.split("/")) == {a, b}]
            got = cc.price(a, b) if a != b else None
            if a != b and not mine:
                chk(f"price({a}, {b})", got, None)
            elif a != b:
                pp, isp = primary(f"{a}/{b}")
                w = sum(c.p if c.pair == pp else 1 / c.p for c in mine) / len(mine)
                w = w if isp else 1 / w
                if not (got and abs(got / w - 1) < 1e-9):
                    chk(f"price({a}, {b})", got, w)
        elif q == 6:
            tt = cc.tokentable()
            chk("tokentable", {t: (e.x, e.y, len(e)) for t, e in tt.items()},
                {t: (x, y, len(x) + len(y)) for t in toks for x in [[j for j, c in enumerate(cs) if c.pair.split("/")[0] == t]]
                 for y in [[j for j, c in enumerate(cs) if c.pair.split("/")[1] == t]]})
        elif q == 7:
            prs = {primary(c.pair)[0] for c in cs}
            some = {t for t in al if rng.random() < .5}
            any_ = {t for t in al if rng.random() < .3}

            def f(cond, p):
                x, y = p.split("/")
                return {"bothin": x in some and y in some, "onein": x in some or y in some, "contains": x in some or y in some,
                        "notin": x not in some and y not in some, "tknbin": x in some, "tknbnotin": x not in some,
                        "tknqin": y in some, "tknqnotin": y not in some, "onein_x": x in any_ or y in any_, "notin_1": x not in any_ and y not in any_}[cond]
            cond = rng.sample(["bothin", "onein", "contains", "notin", "tknbin", "tknbnotin", "tknqin", "tknqnotin", "onein_x", "notin_1"], rng.randint(0, 3))
            kw = {x: (any_ if x[-2:] in ("_1", "_x") else some) for x in cond}
            kw = {x: (", ".join(sorted(v)) if rng.random() < .3 and v else v) for x, v in kw.items()}
            how = rng.choice(["all", "any"])
            want = prs if not cond else {p for p in prs if (all if how == "all" else any)(f(x, p) for x in cond)}
            chk(f"filter_pairs({how}, {kw})", set(cc.filter_pairs(anyall=how, **kw)), want)
            if "onein" not in kw:
                chk("fpo", cc.fpo(some or {"nothing"}), {p for p in prs if f("onein", p)} if some else set())
                chk("fpb", cc.fpb(some or {"nothing"}), {p for p in prs if f("bothin", p)} if some else set())
        else:
            one = [c for c in cs if c.pair == f"{a}/{b}"]
            if one:
                st = cc.xystats(one)
                for st_, v in zip(st, ([c.x for c in one], [c.y for c in one])):
                    if abs(st_.mean - sum(v) / len(v)) > 1e-9 * max(v) or (st_.minv, st_.maxv) != (min(v), max(v)):
                        chk("xystats", st_, v)

    def estimates(self, cc, cs, al, a, b, rng, chk):
        """price estimates are the averages, weighted by liquidity, over the curves inside their range"""
        def near(c):
            """0 inside the range, 1 at a bound, .5 too close to say"""
            lo, ymin = c.x - c.x_act, c.k / c.x - c.y_act
            r = 0
            for d in ([abs(c.x / lo - 1)] if lo != 0 else []) + ([abs(c.x * ymin / c.k - 1)] if ymin > 0 else []):
                r = max(r, 1 if d < 1e-7 else .5 if d < 1e-5 else 0)
            return r

        def want(b, q):
            if b == q:
                return 1
            mine = [c for c in cs if set(c.pair.split("/")) == {b, q}]
            if any(near(c) == .5 for c in mine):
                return "?"
            data = [(c.p if c.pair == f"{b}/{q}" else 1 / c.p, math.sqrt(c.k)) for c in mine if not near(c)]
            return sum(x * w for x, w in data) / sum(w for _, w in data) if data else None

        def cmp(what, got, w):
            if w == "?":
                return
            if (got is None) != (w is None) or (w is not None and not abs(float(got) / w - 1) < 1e-9):
                chk(what, got, w)

        def ask(f):
            try:
                return f()
            except ValueError as ex:
                return ex
        w = want(a, b)
        cmp(f"price_estimate({a}/{b})", cc.price_estimate(tknb=a, tknq=b, raiseonerror=False), w)
        g = ask(lambda: cc.price_estimate(pair=f"{a}/{b}"))
        if w is None:
            chk(f"price_estimate({a}/{b}) raises", isinstance(g, ValueError), True)
        elif not isinstance(g, ValueError):
            cmp(f"price_estimate({a}/{b})", g, w)
        elif w != "?":
            chk(f"price_estimate({a}/{b})", g, w)
        qs, bs = rng.sample(al, min(len(al), rng.randint(1, 2))), rng.sample(al, min(len(al), rng.randint(1, 3)))
        ws = [[want(x, y) for x in bs] for y in qs]
        g = ask(lambda: cc.price_estimates(tknqs=qs, tknbs=bs))
        if any(w is None for r in ws for w in r):
            chk(f"price_estimates({qs}, {bs}) raises", isinstance(g, ValueError), True)
        elif isinstance(g, ValueError):
            if not any(w == "?" for r in ws for w in r):
                chk(f"price_estimates({qs}, {bs})", g, ws)
        else:
            chk(f"shape of price_estimates({qs}, {bs})", g.shape, (len(bs),) if len(qs) == 1 else (len(qs), len(bs)))
            for r, wr in zip([g] if len(qs) == 1 else g, ws):
                for x, w in zip(r, wr):
                    cmp(f"price_estimates({qs}, {bs})", x, w)

    def analysis(self, cc, cs, cid, rng, chk):
        """analyses of the pairs are plain scans of the curves"""
        prs = sorted({primary(c.pair)[0] for c in cs})
        sel = None if rng.random() < .6 else rng.sample(prs, rng.randint(1, len(prs))) if prs else None
        mine = [c for c in cs if sel is None or primary(c.pair)[0] in sel]
        if not mine or len({cid[id(c)] for c in mine}) < len(mine):
            return
        kw = {} if sel is None else {"pairs": set(sel)}

        def rec(c):
            b, q = c.pair.split("/")
            pp, isp = primary(c.pair)
            return (b, q, b, q, c.pair, pp, isp, c.p, c.p if isp else 1 / c.p, c.x, c.x_act, c.y, c.y_act, cid[id(c)])
        want = [rec(c) for c in mine]
        t = rng.choice(["list", "listdf", "volumes", "pivotbq", "pivotxy", "pivotbqs", "pivotxys", "prices", "max", "min", "pricelist", "plaggr"])
        if t in ("volumes", "pricelist") and len({type(r[-1]) for r in want}) > 1:
            t = "list"                # ids of different kinds can not be sorted
        got = cc.pairs_analysis(target=t, **kw)
        what = f"pairs_analysis({t}, {kw})"
        if t == "list":
            chk(what, got, tuple(want))
        elif t == "listdf":
            chk(what, [tuple(r) for r in got.itertuples(index=False)], want)
            chk(what, list(got.columns), "tknx tkny tknb tknq pair primary isprimary p pp x xa y ya cid".split())
        elif t == "volumes":
            w = {(tk, r[-1]): (v, a) for r in want for tk, v, a in ((r[2], r[9], r[10]), (r[3], r[11], r[12]))}
            chk(what, {ix: (row["amtv"], row["amt"]) for ix, row in got.iterrows()}, w)
            chk(what, list(got.index), sorted(w))
            for ix, row in got.iterrows():
                if row["amt"] > 0 and not abs(row["lvg"] * row["amt"] / row["amtv"] - 1) < 1e-9:
                    chk(f"{what} leverage of {ix}", row["lvg"], row["amtv"] / row["amt"])
        elif t in ("pivotbq", "pivotxy", "pivotbqs", "pivotxys"):
            n = {}
            for r in want:
                for x in {(r[2], r[3])} | ({(r[3], r[2])} if t[-1] == "s" else set()):
                    n[x] = n.get(x, 0) + 1
            g = {(x, y): int(got.loc[x, y]) for x in got.index for y in got.columns if got.loc[x, y] != 0}
            chk(what, g, n)
        elif t in ("prices", "max", "min"):
            w = {}
            for r in want:
                w.setdefault((r[2], r[3]), []).append(r[7])
            f = {"prices": lambda v: sum(v) / len(v), "max": max, "min": min}[t]
            for x in got.index:
                for y in got.columns:
                    v = f(w[(x, y)]) if (x, y) in w else 0
                    if not abs(got.loc[x, y] - v) <= 1e-9 * v:
                        chk(f"{what} {x}/{y}", got.loc[x, y], v)
            chk(what, {x for x in got.index} >= {x for x, _ in w} and {y for y in got.columns} >= {y for _, y in w}, True)
        elif t == "pricelist":
            w = {(r[2], r[3], r[-1]): r for r in want}
            chk(what, set(got.index), set(w))
            for ix, row in got.iterrows():
                r = w[ix]
                if (row["primary"], row["pair"]) != (r[5], r[4]) or not abs(row["p"] / r[7] - 1) < 1e-12 or not abs(row["pp"] / r[8] - 1) < 1e-12:
                    chk(f"{what} {ix}", dict(row), r)
        else:
            w = {}
            for r in want:
                w.setdefault((r[2], r[3]), []).append(r)
            chk(what, set(got.index), set(w))
            for ix, row in got.iterrows():
                v = [r[8] for r in w[ix]]
                for k, x in (("mean", sum(v) / len(v)), ("count", len(v)), ("min", min(v)), ("max", max(v)), ("rangepc100", (max(v) - min(v)) / max(v) * 100)):
                    if not abs(row[("pp", k)] - x) <= 1e-9 * abs(x) + (1e-9 if k[0] == "r" else 0):
                        chk(f"{what} {ix} {k}", row[("pp", k)], x)
                if row[("primary", "first")] != w[ix][0][5]:
                    chk(f"{what} {ix} primary", row[("primary", "first")], w[ix][0][5])

    def persist(self, om, CC, cc, m, slots, files, o, rng, res, desc, i, scaleof):
        import pandas as pd
        fmt = o["fmt"]
        base = os.path.join(self.disk.root, f"f{o['f']}")
        path = base + (".csv" if fmt == "csv" else ".optimizer.pickle")
        known = files.get(path)             # what a reader must find: a list of reference curves, None (no file) or "?" (damaged or unknown)
        if o["op"] == "save":
            if not m.cs or fmt == "csv" and any(not isinstance(c.cid, str) for c in m.cs):
                return "skipped"
            if fmt == "csv":
                def go():
                    cc.asdf().to_csv(path)
            else:
                def go():
                    om.CPCArbOptimizer(cc).pickle(base, addts=False)
        else:
            def go():
                if fmt == "csv":
                    df = pd.read_csv(path, keep_default_na=False, na_values=[], float_precision="round_trip")
                    return CC.from_df(df)
                return om.CPCArbOptimizer.unpickle(base).curve_container
        before = self.disk.contents()
        if o.get("fault"):
            self.disk.reset()
            try:                # count the steps on a dry run, then undo it
                with self.disk:
                    go()
            except Exception:
                pass
            sites = list(self.disk.sites)
            for f in os.listdir(self.disk.root):
                with open(os.path.join(self.disk.root, f), "wb") as h:
                    h.write(before.get(f, b""))
                if f not in before:
                    os.remove(os.path.join(self.disk.root, f))
            if sites:
                at = o["fault"][0] % len(sites)
                kinds = Disk.KINDS[sites[at]]
                self.disk.reset(at, kinds[o["fault"][1] % len(kinds)])
            else:
                self.disk.reset()
        else:
            self.disk.reset()
        r = err = None
        try:
            with self.disk:
                r = go()
        except Crash:
            err = "crash"
        except Exception as ex:
            err = ex
        fired = self.disk.fired
        if fired:
            res.faults["disk " + fired.split(": ")[1] + " at " + fired.split()[0]] += 1
        self.disk.reset()
        if o["op"] == "save":
            if err is None:
                files[path] = [(c, scaleof[id(c)] if fmt == "pickle" else None) for c in m.cs]
                res.nontrivial = True
            elif not fired:
                res.violate("curves can not be stored", f"{desc}: {err!r}", i)
            elif self.disk.contents() != before:
                files[path] = "?"
            return "saved" if err is None else "failed"
        if err is not None:
            if known and known != "?" and not fired:
                res.violate("stored curves can not be read", f"{desc}: {err!r}", i)
            return "unreadable"
        if known is None:
            res.violate("curves read from nowhere", f"{desc}: {list(r)}", i)
            return "x"
        if known == "?":
            # a torn pickle must not be mistaken for a container; a table that ends at a row boundary can not be told from a whole one
            return "damaged"
        d = self.equal(list(r), [x[0] for x in known])
        if d:
            res.violate("stored curves come back different", f"{desc}: {d}", i)
            return "x"
        m2 = self.Model(r.tokenscale if fmt == "pickle" else None)
        for c in r:
            self.adopt(c)
        m2.cs = list(r)
        for c, x in zip(r, known):
            scaleof[id(c)] = x[1]       # the scale of a curve is that of the container it was put in last
        slots[o["s"]] = (r, m2)
        return "read"


# ------------------------------------------------------------------------------------------------ C35
BIN = ["+", "-", "*", "//", "/", "%", "**", "<<", ">>", "&", "|", "^"]
CMP = ["==", "!=", "<", "<=", ">", ">="]


def calc(op, a, b):
    """the reference: plain python numbers"""
    if op in ("<<", "**") and (abs(b) > 40 or abs(a) > 1e9):
        raise Skip
    r = eval(f"a {op} b", {"a": a, "b": b})
    if isinstance(r, complex) or r != r or abs(r) > 1e60:
        raise Skip
    return r


class Skip(Exception):
    pass


def alike(x, y):
    return type(x) is type(y) and repr(x) == repr(y)        # tells -0.0 from 0.0


class C35(Quiet):
    pid = "C35"
    time_unit = "operations"
    real = ["carbon.helpers.sharedvar", "carbon.tools.params"]
    stub = ["the scheduler of the holders (decided by the seed)", "failures inside an operation (injected at source lines)"]
    quick_runs = 3000
    rule = ("a run is non-trivial when a value was changed through one holder and read through another; distinct histories are counted by the sequence "
            "of (holder, operation, outcome), distinct states by the digest of all values and of who shares what")

    NUM = [0, 1, -1, 2, 3, 5, 7, 12, -4, 255, 0.5, -2.25, 1e9, 1e-9, 3.75, 10**15]
    KEYS = ["a", "b", "cc", "tkn", "x1", "marg"]

    def generate(self, rng, tier):
        ops = []
        n = rng.randint(4, 30) * (1 if tier == "quick" else rng.choice([1, 4]))
        what = rng.choice(["var", "var", "params"])
        num = (lambda: rng.choice(self.NUM)) if rng.random() < .5 else (lambda: rng.choice([x for x in self.NUM if isinstance(x, int)][:10]))
        for _ in range(n):
            h, g = rng.randrange(4), rng.randrange(4)
            if what == "var":
                k = rng.choice(["new", "alias", "in", "in", "in", "in", "bin", "bin", "bin", "rbin", "set", "cmp", "un", "conv"])
                o = {"op": k, "h": h, "g": g, "o": rng.choice(BIN), "v": rng.choice([num(), ["h", rng.randrange(4)]])}
                if k == "cmp":
                    o["o"] = rng.choice(CMP)
                if k == "un":
                    o["o"] = rng.choice(["+", "-", "abs", "round", "floor", "ceil", "trunc", "divmod", "rdivmod"])
                if k in ("in", "set") and rng.random() < .15:
                    o["fault"] = [rng.getrandbits(16), rng.choice(["MemoryError", "KeyboardInterrupt", "RecursionError"])]
            else:
                k = rng.choice(["pnew", "pcon", "pcon", "pset", "pset", "pitem", "pitem", "padd", "pdef", "pdef", "pget", "pget", "prepr", "pcopy", "pmut"])
                o = {"op": k, "h": h, "g": g, "k": rng.choice(self.KEYS), "v": num(), "kw": {x: num() for x in rng.sample(self.KEYS, rng.randint(0, 3))},
                     "df": rng.choice([None, None, {}, {x: num() for x in rng.sample(self.KEYS, 2)}]), "how": rng.randrange(6)}
            ops.append(o)
        return {"what": what, "ops": ops}

    def shrink_fields(self, op):
        if "fault" in op:
            yield {k: v for k, v in op.items() if k != "fault"}
        if op.get("kw"):
            yield dict(op, kw={})

    def run(self, p, res):
        (self.vars if p["what"] == "var" else self.params)(p, res)

    # ---- shared variables
    def vars(self, p, res):
        from carbon.helpers import SharedVar as SV
        import operator as op_
        IN = {"+": op_.iadd, "-": op_.isub, "*": op_.imul, "//": op_.ifloordiv, "/": op_.itruediv, "%": op_.imod, "**": op_.ipow, "<<": op_.ilshift,
              ">>": op_.irshift, "&": op_.iand, "|": op_.ior, "^": op_.ixor}
        objs = [SV(5), SV(2.5)]
        val = [5, 2.5]
        name = {0: 0, 1: 0, 2: 1, 3: 1}          # holder -> object
        hist = []
        wrote = {}
        for i, o in enumerate(p["ops"]):
            if res.violations:
                return
            res.simtime += 1
            k, h = o["op"], o["h"]
            t = name[h]
            desc = f"op {i} {o}"
            isv = isinstance(o["v"], list)
            u = name[o["v"][1]] if isv else None
            a = objs[u] if isv else o["v"]
            b = val[u] if isv else o["v"]
            oc = "ok"

            def bind(holder, obj, v):
                objs.append(obj)
                val.append(v)
                name[holder] = len(objs) - 1
            try:
                if k == "new":
                    bind(h, SV(a), b)
                elif k == "alias":
                    name[h] = name[o["g"]]
                elif k in ("in", "set"):
                    oc = self.inplace(IN, SV, objs, val, t, k, o, a, b, res, desc, i)
                    wrote[t] = h
                elif k in ("bin", "rbin"):
                    l, r, lv, rv = (objs[t], a, val[t], b) if k == "bin" else (a, objs[t], b, val[t])
                    want = werr = None
                    try:
                        want = calc(o["o"], lv, rv)
                    except Skip:
                        raise
                    except Exception as ex:
                        werr = ex
                    try:
                        got = eval(f"l {o['o']} r", {"l": l, "r": r})
                    except Exception as ex:
                        if type(ex) is not type(werr):
                            res.violate("operation fails", f"{desc}: {ex!r}, with plain numbers {werr!r} {want!r}", i)
                        oc = "error"
                    else:
                        if werr is not None or type(got) is not SV or not alike(got.value, want) or any(got is x for x in objs):
                            res.violate("wrong result", f"{desc}: {lv!r} {o['o']} {rv!r} is {got!r} {getattr(got, 'value', got)!r}, must be a new SharedVar of {want!r} {werr!r}", i)
                        else:
                            bind(o["g"], got, want)
                elif k == "cmp":
                    for l, r, lv, rv in ((objs[t], a, val[t], b), (a, objs[t], b, val[t])):
                        got, want = eval(f"l {o['o']} r", {"l": l, "r": r}), eval(f"l {o['o']} r", {"l": lv, "r": rv})
                        if got is not want:
                            res.violate("wrong comparison", f"{desc}: {lv!r} {o['o']} {rv!r} is {got!r}", i)
                elif k == "un":
                    oc = self.unary(SV, objs[t], val[t], o["o"], a, b, res, desc, i)
                else:
                    v, x = val[t], objs[t]
                    for what, got, want in (("int", int(x), int(v)), ("float", float(x), float(v)), ("complex", complex(x), complex(v)), ("str", str(x), str(v)),
                                            ("list index", [10, 11, 12][x] if v in (0, 1, 2) and type(v) is int else 0, [10, 11, 12][v] if v in (0, 1, 2) and type(v) is int else 0)):
                        if not alike(got, want):
                            res.violate("wrong conversion", f"{desc}: {what} of {v!r} is {got!r}", i)
            except (Skip, OverflowError):
                oc = "skip"
            for n_, j in name.items():
                x = objs[j]
                if not alike(x.value, val[j]) and not res.violations:
                    res.violate("holders disagree about the value", f"{desc}: holder {n_} reads {x.value!r}, must be {val[j]!r}", i)
                if j in wrote and wrote[j] != n_:
                    res.nontrivial = True
            hist.append([h, k, o["o"], oc])
            res.trace.append(json.dumps([hist[-1], [repr(val[name[n_]]) for n_ in range(4)]]))
            res.states.add(h8([[repr(val[name[n_]]) for n_ in range(4)], [name[n_] == name[m_] for n_ in range(4) for m_ in range(n_)]]))
        res.inter.add(h8(hist))

    def inplace(self, IN, SV, objs, val, t, k, o, a, b, res, desc, i):
        want = werr = None
        try:
            want = calc(o["o"], val[t], b) if k == "in" else b
        except Skip:
            raise
        except Exception as ex:
            werr = ex

        def go(x, y):
            return IN[o["o"]](x, y) if k == "in" else x.setval(y)
        x = objs[t]
        if o.get("fault") and werr is None:
            y = SV(val[t])
            tr = Tracer(record=True)
            with tr:
                go(y, y if a is x else a)
            tr = Tracer(at=pick_site(random.Random(o["fault"][0]), tr.sites), exc=o["fault"][1])
            try:
                with tr:
                    go(x, a)
            except BaseException as ex:
                if not tr.fired:
                    raise
                res.faults[f"{o['fault'][1]} inside an operation"] += 1
                if alike(x.value, want):
                    val[t] = want
                return "fault"
            val[t] = want
            return "ok"
        try:
            got = go(x, a)
        except Exception as ex:
            if type(ex) is not type(werr):
                res.violate("operation fails", f"{desc}: {ex!r}, with plain numbers {werr!r} {want!r}", i)
            return "error"
        if werr is not None or got is not x:
            res.violate("wrong result", f"{desc}: {got!r}, must be the variable itself {werr!r}", i)
        val[t] = want
        return "ok"

    def unary(self, SV, x, v, how, a, b, res, desc, i):
        ref = {"+": lambda y, z: +y, "-": lambda y, z: -y, "abs": lambda y, z: abs(y), "round": lambda y, z: round(y, 2), "floor": lambda y, z: math.floor(y),
               "ceil": lambda y, z: math.ceil(y), "trunc": lambda y, z: math.trunc(y), "divmod": lambda y, z: divmod(y, z), "rdivmod": lambda y, z: divmod(z, y)}[how]
        want = werr = None
        try:
            want = ref(v, b)
        except Exception as ex:
            werr = ex
        try:
            got = ref(x, a)
        except Exception as ex:
            if type(ex) is not type(werr):
                res.violate("operation fails", f"{desc}: {ex!r}, with plain numbers {werr!r} {want!r}", i)
            return "error"
        g, w = (got, want) if isinstance(want, tuple) else ((got,), (want,))
        if werr is not None or len(g) != len(w) or any(type(y) is not SV or y is x or not alike(y.value, z) for y, z in zip(g, w)):
            res.violate("wrong result", f"{desc}: {how} of {v!r} is {got!r}, must be {want!r} {werr!r}", i)
        return "ok"

    # ---- parameter objects
    def params(self, p, res):
        from carbon.tools.params import Params
        objs = [Params(), Params(a=1)]
        ref = [({}, {}), ({"a": 1}, {})]          # (parameters, defaults)
        name = {0: 0, 1: 1, 2: 1, 3: 0}
        hist = []
        wrote = {}
        for i, o in enumerate(p["ops"]):
            if res.violations:
                return
            res.simtime += 1
            k, h, g = o["op"], o["h"], o["g"]
            desc = f"op {i} {o}"
            x, (P, D) = objs[name[h]], ref[name[h]]
            oc, r = "ok", x
            kw, df, key_, v = dict(o["kw"]), o["df"] and dict(o["df"]) if o["df"] is not None else None, o["k"], o["v"]

            def bind(obj, P_, D_):
                objs.append(obj)
                ref.append((dict(P_), dict(D_)))
                name[g] = len(objs) - 1
            if k in ("pset", "pitem", "padd", "pdef"):
                wrote[name[h]] = h
            if k == "pnew":
                bind(Params(**kw), o["kw"], {})
            elif k == "pcon":
                src = o["how"]
                if src < 3:
                    arg = [None, kw, dict(kw)][src]
                    P_, D_ = ({} if src == 0 else o["kw"]), {}
                else:
                    arg, P_, D_ = x, P, D
                if src >= 3 and D and df is not None:
                    try:
                        Params.construct(x, defaults=df)
                        res.violate("conflicting defaults accepted", desc, i)
                    except ValueError:
                        oc = "refused"
                else:
                    new = Params.construct(arg, defaults=df)
                    bind(new, P_, df or D_)
                    if src < 3:         # what was passed in stays the caller's
                        kw["junk"] = kw[key_] = "changed later"
                    if df is not None:
                        df["junk"] = df[key_] = "changed later"
            elif k == "pset":
                upd = [True, False, None][o["how"] % 3]
                try:
                    r = x.set(key_, v) if upd is None else x.set(key_, v, allowupdate=upd)
                    if upd is False and key_ in P:
                        res.violate("an existing parameter was replaced", desc, i)
                    P[key_] = v
                except ValueError:
                    oc = "refused"
                    if upd is not False or key_ not in P:
                        res.violate("a parameter can not be set", desc, i)
            elif k == "pitem":
                try:
                    x[key_] = v
                    if key_ in P:
                        res.violate("an existing parameter was replaced", desc, i)
                    P[key_] = v
                except ValueError:
                    oc = "refused"
                    if key_ not in P:
                        res.violate("a parameter can not be set", desc, i)
            elif k == "padd":
                try:
                    r = x.add(**kw)
                    if set(kw) & set(P):
                        res.violate("an existing parameter was replaced", desc, i)
                    P.update(kw)
                except ValueError:
                    oc = "refused"
                    if not set(kw) & set(P):
                        res.violate("a parameter can not be set", desc, i)
                    for y in kw:        # those before the one refused may have been added
                        if y not in P and y in x.params:
                            P[y] = kw[y]
            elif k == "pdef":
                r = x.set_default(**kw)
                D.update(kw)
            elif k == "pget":
                self.lookup(x, P, D, key_, res, desc, i)
            elif k == "prepr":
                y = eval(repr(x), {"Params": Params})
                bind(y, P, D)
            elif k == "pcopy":
                import copy
                y = copy.deepcopy(x) if o["how"] % 2 else pickle.loads(pickle.dumps(x))
                bind(y, P, D)
            elif k == "pmut":
                name[g] = name[h]
            if r is not x:
                res.violate("wrong return value", f"{desc}: not the object itself", i)
            for n_, j in name.items():
                q, (P_, D_) = objs[j], ref[j]
                if (self.peek(q) if i % 3 else (dict(q.params), dict(q.defaults))) != (P_, D_) and not res.violations:
                    res.violate("parameters are wrong", f"{desc}: holder {n_} sees {q!r}, must be {P_} with defaults {D_}", i)
                if j in wrote and wrote[j] != n_:
                    res.nontrivial = True
            hist.append([h, g, k, oc])
            res.trace.append(json.dumps([hist[-1], [ref[name[n_]] for n_ in range(4)]]))
            res.states.add(h8([[ref[name[n_]] for n_ in range(4)], [name[n_] == name[m_] for n_ in range(4) for m_ in range(n_)]]))
        res.inter.add(h8(hist))

    class Peek:
        construct = staticmethod(lambda dct=None, defaults=None: (dct or {}, defaults or {}))

    def peek(self, q):
        """the contents, from the representation: reading .defaults creates them"""
        return eval(repr(q), {"Params": self.Peek})

    def lookup(self, x, P, D, key_, res, desc, i):
        for y in (key_, "nope"):
            want = P.get(y, D.get(y))
            if x[y] != want or x.get_default(y) != D.get(y):
                res.violate("wrong value", f"{desc}: [{y}] is {x[y]!r}, must be {want!r}; default {x.get_default(y)!r}, must be {D.get(y)!r}", i)
            for how, known, get in (("attribute", y in P or y in D, lambda: getattr(x, y)), ("default", y in D, lambda: x.get_default(y, raiseonerror=True))):
                try:
                    got = get()
                except (KeyError, AttributeError):
                    if known:
                        res.violate("wrong value", f"{desc}: {how} {y} is not found", i)
                else:
                    if not known or got != (want if how == "attribute" else D[y]):
                        res.violate("wrong value", f"{desc}: {how} {y} is {got!r}, must be {want!r}", i)
