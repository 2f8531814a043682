"""
C30 flows recorded on an arbitrage graph
C31 arbitrage cycles: what is reported can be executed, by competing clients
"""
import copy
import io
import itertools
import json
import math
import random
import sys

from . import boot  # noqa: F401
from .core import Scenario, Result, h8
from .fault import Tracer, NullOut, pick_site, EXC

REAL = ["carbon.tools.arbgraphs (nodes, edges, graph, cycles, statistics)", "networkx", "pandas"]
STUB = ["the scheduler of the competing clients", "standard output"]
EPS = 1e-9
FAULTS = ("MemoryError", "KeyboardInterrupt", "RecursionError", "SystemExit", "OSError")


def close(a, b, rel=1e-9, ab=1e-12):
    return a == b or abs(a - b) <= ab + rel * max(abs(a), abs(b))


class Model:
    """reference: edges with capacity and remaining capacity, nodes with amounts and history"""

    def __init__(self):
        self.nodes = []             # token names in order
        self.amount = {}
        self.hist = {}
        self.edges = []             # dicts
        self.mag = {}

    def node(self, t):
        if t not in self.amount:
            self.nodes.append(t)
            self.setamount(t, 0, True)
        return t

    def setamount(self, t, v, clear=False):
        self.hist[t] = ([] if clear else self.hist[t]) + [v]
        self.amount[t] = v
        self.mag[t] = max(abs(v), 0 if clear else self.mag.get(t, 0))

    def edge(self, ti, ai, to, ao, inv=False, uid=None):
        self.node(ti)
        self.node(to)
        self.edges.append(dict(ti=ti, ai=ai, to=to, ao=ao, rem=ai, inv=inv, uid=uid))

    def between(self, ti, to):
        return [e for e in self.edges if (ti is None or e["ti"] == ti) and (to is None or e["to"] == to)]

    def record(self, e, amt):
        out = amt * e["ao"] / e["ai"]
        e["rem"] -= amt
        self.setamount(e["to"], self.amount[e["to"]] + out)
        self.setamount(e["ti"], self.amount[e["ti"]] - amt)
        return out

    def reset(self):
        for t in self.nodes:
            self.setamount(t, 0, True)
        for e in self.edges:
            e["rem"] = e["ai"]

    def duplicate(self, consolidate):
        m = Model()
        for t in self.nodes:
            m.node(t)
        if not consolidate:
            for e in self.edges:
                m.edge(e["ti"], e["ai"], e["to"], e["ao"], e["inv"], e["uid"])
        else:
            for a in self.nodes:
                for b in self.nodes:
                    es = self.between(a, b)
                    if a != b and es:
                        m.edge(a, sum(e["ai"] for e in es), b, sum(e["ao"] for e in es), es[0]["inv"])
        return m


def verdict(amt, limits):
    """'no' (must be refused), 'yes' (must be accepted), 'either' (within rounding of a limit)"""
    r = "yes"
    for lim, mag in limits:
        z = 2 * EPS + 1e-11 * max(abs(lim), abs(mag))
        if amt > lim + z:
            return "no"
        if amt > lim - z and amt != lim:
            r = "either"
        elif amt == lim and mag > 1e5:
            r = "either"
    if amt < -2 * EPS:
        return "no"
    if amt < 0:
        r = "either"
    return r


class Graph(Scenario):
    time_unit = "operations"
    real, stub = REAL, STUB
    TOK = ["USDC", "ETH", "LINK", "WBTC-C599", "BNT"]

    def gen_edges(self, rng, toks, n):
        val = {t: 10 ** rng.uniform(-2, 4) for t in toks}
        es = []
        for i in range(n):
            a, b = rng.sample(toks, 2)
            v = 10 ** rng.uniform(-3, 6)
            es.append(dict(ti=a, ai=rng.choice([v / val[a], round(v / val[a], 3) or 1.0, float(rng.randint(1, 9))]), to=b,
                           ao=v / val[b] * math.exp(rng.gauss(0, .05)), inv=rng.random() < .3, uid=rng.choice([None, f"u{i}"]),
                           how=rng.choice(["edge", "edge", "dxdy", "dxdy2", "obj"])))
        return es

    @staticmethod
    def build(ag, G, M, e):
        if e["how"] == "edge":
            G.add_edge(e["ti"], e["ai"], e["to"], e["ao"], inverse=e["inv"], uid=e["uid"])
        elif e["how"] == "dxdy":
            G.add_edge_dxdy(e["ti"], e["ai"], e["to"], -e["ao"], inverse=e["inv"], uid=e["uid"])
        elif e["how"] == "dxdy2":
            G.add_edge_dxdy(e["to"], -e["ao"], e["ti"], e["ai"], inverse=e["inv"], uid=e["uid"])
        else:
            ni, no = G.node_by_tkn(e["ti"], create=True), G.node_by_tkn(e["to"], create=True)
            G.add_edge_obj(ag.Edge(ni, e["ai"], no, e["ao"], inverse=e["inv"], uid=e["uid"]))
        M.edge(e["ti"], e["ai"], e["to"], e["ao"], e["inv"], e["uid"])

    @staticmethod
    def compare(G, M):
        """difference between a graph and its model, or None"""
        if [n.tkn for n in G.nodes] != M.nodes:
            return f"nodes {[n.tkn for n in G.nodes]}, must be {M.nodes}"
        if [n.ix for n in G.nodes] != list(range(len(M.nodes))) or any(G.node_by_tkn(n.tkn) is not n for n in G.nodes):
            return "node index or lookup is wrong"
        if len(G.edges) != len(M.edges):
            return f"{len(G.edges)} edges, must be {len(M.edges)}"
        for j, (e, m) in enumerate(zip(G.edges, M.edges)):
            if (e.node_in is not G.node_by_tkn(m["ti"])) or (e.node_out is not G.node_by_tkn(m["to"])):
                return f"edge {j} connects {e.tkn_in}->{e.tkn_out} or nodes of another graph, must be {m['ti']}->{m['to']}"
            if not close(e.amount_in, m["ai"]) or not close(e.amount_out, m["ao"]) or e.ix != j or bool(e.inverse) != m["inv"] or e.uid != m["uid"]:
                return f"edge {j} is {e} inverse={e.inverse} uid={e.uid} ix={e.ix}, must be {m}"
            if not close(e.state.amount_in_remaining, m["rem"], 1e-9, 1e-9 * m["ai"] + 1e-12):
                return f"edge {j} has remaining capacity {e.state.amount_in_remaining!r}, must be {m['rem']!r}"
        for n in G.nodes:
            t = n.tkn
            if not close(n.state.amount, M.amount[t], 1e-9, 1e-9 * M.mag[t] + 1e-12):
                return f"node {t} holds {n.state.amount!r}, must be {M.amount[t]!r}"
            h = n.state.amount_.history
            if len(h) != len(M.hist[t]) or any(not close(x, y, 1e-9, 1e-9 * M.mag[t] + 1e-12) for x, y in zip(h, M.hist[t])):
                return f"node {t} has history {h[-5:]} ({len(h)}), must be {M.hist[t][-5:]} ({len(M.hist[t])})"
        return None


class C30(Graph):
    pid = "C30"
    quick_runs = 1500
    rule = ("a run is non-trivial when at least one transport was recorded; distinct histories are counted by the sequence of (operation, "
            "graph, outcome, fault) and distinct states by the digest of all remaining capacities and node amounts")

    def generate(self, rng, tier):
        toks = self.TOK[:rng.randint(2, 4)]
        edges = self.gen_edges(rng, toks, rng.randint(1, 9))
        ops = []
        n = rng.randint(6, 30) * (1 if tier == "quick" else rng.choice([1, 2, 4]))
        for _ in range(n):
            k = rng.choices(["fund", "edge", "graph", "reset", "dup", "add", "stats", "alg"], [4, 6, 9, 1, 1, 2, 3, 2])[0]
            o = {"op": k, "g": rng.choice([0, 0, 0, 1, 2]), "seed": rng.getrandbits(30)}
            if k == "fund":
                o.update(t=rng.randrange(9), how=rng.choice(["amount", "set"]), f=rng.choice([0, .5, 1, 1, 3, 10]))
            if k == "edge":
                o.update(e=rng.randrange(99), rec=rng.random() < .8, roe=rng.random() < .85, wrap=rng.random() < .2,
                         f=rng.choice([None, 0, .1, .25, .5, 1, 1, "rem", "rem", 1.3, "rem+", -.5]))
            if k == "graph":
                o.update(e=rng.randrange(99), rec=rng.random() < .85, roe=rng.random() < .9, wrap=rng.random() < .3, str=rng.random() < .6,
                         f=rng.choice([0, .1, .25, .5, .9, "cap", "cap", "cap+", "funds", 1.5, -.1]))
                if o["rec"] and o["roe"] and rng.random() < .3:
                    o["fault"] = [rng.getrandbits(20), rng.choice(FAULTS)]
                elif rng.random() < .1:
                    o["out"] = 1
            if k == "reset":
                o.update(what=rng.choice(["graph", "graph", "edge", "node"]), e=rng.randrange(99), v=rng.choice([None, 5.0]))
            if k == "dup":
                o.update(to=rng.choice([1, 2]), cons=rng.random() < .5)
            if k == "add":
                o.update(self.gen_edges(rng, self.TOK[:4], 1)[0])
            if k == "alg":
                o.update(e=rng.randrange(99), e2=rng.randrange(99), how=rng.choice(["mul", "rmul", "add", "sum", "dup", "rev"]),
                         f=rng.choice([1, 2, 3, .5, 1.25, 10 ** rng.uniform(-3, 3)]))
            ops.append(o)
        return {"edges": edges, "ops": ops}

    def shrink_fields(self, op):
        for k in ("fault", "out"):
            if k in op:
                yield {x: v for x, v in op.items() if x != k}

    def execute(self, p):
        res = Result()
        so = sys.stdout
        sys.stdout = NullOut()
        try:
            self.run(p, res)
        finally:
            sys.stdout = so
        return res

    def run(self, p, res):
        import carbon.tools.arbgraphs as ag
        G0, M0 = ag.ArbGraph(), Model()
        for e in p["edges"]:
            self.build(ag, G0, M0, e)
        slots = {0: (G0, M0)}
        last = None
        hist = []
        for i, o in enumerate(p["ops"]):
            if res.violations:
                return
            res.simtime += 1
            g = o["g"] if o["g"] in slots else 0
            G, M = slots[g]
            k = o["op"]
            desc = f"op {i} {o}"
            oc = "ok"
            if k == "fund":
                t = M.nodes[o["t"] % len(M.nodes)]
                cap = sum(e["rem"] for e in M.between(t, None))
                v = max(M.amount[t], 0) + o["f"] * max(cap, 0)
                n = G.node_by_tkn(t)
                if o["how"] == "amount":
                    n.state.amount = v
                else:
                    n.state.amount_.set(v)
                M.setamount(t, v)
            elif k == "reset":
                if o["what"] == "graph":
                    if G.reset_state() is not G:
                        res.violate("wrong return value", f"{desc}: reset_state does not return the graph", i)
                    M.reset()
                elif o["what"] == "edge":
                    j = o["e"] % len(M.edges)
                    G.edges[j].reset_state()
                    M.edges[j]["rem"] = M.edges[j]["ai"]
                else:
                    t = M.nodes[o["e"] % len(M.nodes)]
                    G.node_by_tkn(t).reset_state(o["v"])
                    M.setamount(t, o["v"] or 0, True)
            elif k == "dup":
                slots[o["to"]] = (G.duplicate(consolidate=o["cons"]), M.duplicate(o["cons"]))
            elif k == "add":
                self.build(ag, G, M, o)
            elif k == "stats":
                self.stats(G, M, res, desc, i, o)
            elif k == "alg":
                self.algebra(G, M, res, desc, i, o)
            elif k == "edge":
                oc = self.edge(ag, G, M, res, desc, i, o)
            else:
                oc = self.transport(ag, G, M, res, desc, i, o)
            for s, (g_, m_) in slots.items():
                d = self.compare(g_, m_)
                if d:
                    kind = "refused transport changed the graph" if oc in ("refused", "fault-none") else \
                        "another graph was changed" if s != g and k != "dup" else "flows do not add up"
                    res.violate(kind, f"{desc}: graph {s}: {d}", i)
                    return
            hist.append([k, g, oc])
            res.trace.append(json.dumps([hist[-1], [repr(e.state.amount_in_remaining) for e in G.edges], [repr(n.state.amount) for n in G.nodes]]))
            res.states.add(h8([[round(m["rem"] / m["ai"], 3) for m in M.edges], [round(M.amount[t] / (M.mag[t] or 1), 3) for t in M.nodes]]))
        res.inter.add(h8(hist))

    def algebra(self, G, M, res, desc, i, o):
        """scaled, combined, reversed and duplicated edges convert as the edges they come from, in the same notation"""
        j = o["e"] % len(M.edges)
        E, m, f, how = G.edges[j], M.edges[j], o["f"], o["how"]
        ai, ao, inv, ti, to = m["ai"], m["ao"], m["inv"], m["ti"], m["to"]
        if how in ("add", "sum"):
            ks = [x for x in range(len(M.edges)) if (M.edges[x]["ti"], M.edges[x]["to"]) == (ti, to)]
            j2 = ks[o["e2"] % len(ks)]
            E2, m2 = G.edges[j2], M.edges[j2]
            X = E + E2 if how == "add" else sum([E, E2])
            ai, ao = ai + m2["ai"], ao + m2["ao"]
        elif how in ("mul", "rmul"):
            X = E * f if how == "mul" else f * E
            ai, ao = ai * f, ao * f
        elif how == "dup":
            X = E.duplicate()
        else:
            X = E.reverse()
            ai, ao, ti, to, inv = ao, ai, to, ti, not inv
        out = ao / ai
        want = dict(amount_in=ai, amount_out=ao, tkn_in=ti, tkn_out=to, inverse=inv, rem=ai, price=1 / out if inv else out, p0=out, p1=1 / out,
                    pair=f"{to}/{ti}" if inv else f"{ti}/{to}", convention=f"{ti} per {to}" if inv else f"{to} per {ti}")
        got = dict(amount_in=X.amount_in, amount_out=X.amount_out, tkn_in=X.tkn_in, tkn_out=X.tkn_out, inverse=bool(X.inverse),
                   rem=X.state.amount_in_remaining, price=X.price(), p0=X.price(inverse=False), p1=X.price(inverse=True), pair=X.pair(),
                   convention=X.convention())
        for x, w in want.items():
            if not (close(got[x], w) if isinstance(w, float) else got[x] == w):
                res.violate("derived edge is wrong", f"{desc}: {how} of {m}: {x} is {got[x]!r}, must be {w!r}", i)
                return

    def edge(self, ag, G, M, res, desc, i, o):
        j = o["e"] % len(M.edges)
        E, m = G.edges[j], M.edges[j]
        f = o["f"]
        amt = m["ai"] if f is None else m["rem"] if f == "rem" else m["rem"] * 1.001 + 1e-6 if f == "rem+" else f * m["ai"]
        arg = None if f is None else ag.Amount(amt, E.node_in) if o["wrap"] else amt
        lim = [(m["ai"], m["ai"])]
        if o["rec"] and o["roe"]:
            lim += [(m["rem"], m["ai"]), (M.amount[m["ti"]], M.mag[m["ti"]])]
        v = verdict(amt, lim)
        try:
            r = E.transport(arg, record=o["rec"], raiseonerror=o["roe"])
        except Exception as ex:
            if v == "yes":
                res.violate("valid transport refused", f"{desc}: amount {amt!r} on {m}: {ex!r}", i)
            return "refused"
        if v == "no":
            res.violate("transport beyond capacity accepted", f"{desc}: amount {amt!r} on {m}, node holds {M.amount[m['ti']]!r}", i)
            return "ok"
        want = amt * m["ao"] / m["ai"]
        if r.node is not E.node_out or not close(r.amount, want):
            res.violate("wrong amount transported", f"{desc}: {amt!r} gives {r}, must be {want!r} {m['to']}", i)
        if o["rec"]:
            M.record(m, amt)
            res.nontrivial = True
        return "rec" if o["rec"] else "calc"

    def transport(self, ag, G, M, res, desc, i, o):
        m0 = M.edges[o["e"] % len(M.edges)]
        ti, to = m0["ti"], m0["to"]
        es = M.between(ti, to)
        cap = sum(e["rem"] for e in es)
        f = o["f"]
        amt = cap if f == "cap" else cap * 1.001 + 1e-6 if f == "cap+" else M.amount[ti] if f == "funds" else f * max(cap, m0["ai"])
        ni, no = G.node_by_tkn(ti), G.node_by_tkn(to)
        arg = ag.Amount(amt, ni if o["str"] else ti) if o["wrap"] else amt
        args = (ti, to) if o["str"] else (ni, no)
        lim = [(cap, sum(e["ai"] for e in es)), (max(amt, 0), 0)]
        if o["rec"] and o["roe"]:
            lim += [(M.amount[ti], M.mag[ti])]
        v = verdict(amt, lim)
        # a dry run beyond the remaining capacity (but within the capacity of every edge) is not claimed either way
        odd = any(e["rem"] < -EPS for e in es) or cap <= 0 or not o["roe"] and o["rec"] or not o["rec"] and v != "yes"
        kw = dict(record=o["rec"], raiseonerror=o["roe"])
        tr = None
        if o.get("fault"):
            u, exc = o["fault"]
            g2 = copy.deepcopy(G)
            t0 = Tracer(record=True)
            try:
                with t0:
                    g2.transport(amt, ti, to, **kw)
            except Exception:
                t0 = None
            if t0:
                tr = Tracer(at=pick_site(random.Random(u), t0.sites), exc=exc)
        if o.get("out"):
            sys.stdout = NullOut(break_at=1)
        err = r = None
        try:
            if tr:
                with tr:
                    r = G.transport(arg, *args, **kw)
            else:
                r = G.transport(arg, *args, **kw)
        except BaseException as ex:
            err = ex
        if o.get("out"):
            if sys.stdout.fired:
                res.faults["stdout broken"] += 1
            sys.stdout = NullOut()
        fired = (tr and tr.fired) or (o.get("out") and isinstance(err, BrokenPipeError))
        if tr and tr.fired:
            res.faults[f"{o['fault'][1]} in {tr.fired[1]}"] += 1
        if err is not None and fired:
            if self.compare(G, M) is None:
                return "fault-none"
            self.apply(M, es, amt, cap)         # interrupted after everything was recorded
            return "fault-all"
        if err is not None:
            if not isinstance(err, Exception):
                raise err
            if v == "yes" and not odd:
                res.violate("valid transport refused", f"{desc}: {amt!r} {ti}->{to} through {es}: {err!r}", i)
            return "refused"
        if v == "no" and not odd:
            res.violate("transport beyond capacity accepted", f"{desc}: {amt!r} {ti}->{to} through {es}, node holds {M.amount[ti]!r}", i)
            return "ok"
        if odd and cap <= 0 and amt > 1e-6:
            if o["rec"] and o["roe"]:
                res.violate("transport beyond capacity accepted", f"{desc}: {amt!r} through exhausted edges {es}", i)
                return "ok"
        ai, ao = self.apply(M, es, amt, cap, o["rec"])
        if o["rec"]:
            res.nontrivial = True
        if [e.ix for e in r.edges] != [M.edges.index(e) for e in es]:
            res.violate("wrong transport result", f"{desc}: edges {[e.ix for e in r.edges]}", i)
        elif not close(r.amount_in.amount, amt) or not close(r.amount_out.amount, sum(ao), 1e-9, 1e-12) or str(r.amount_in.tkn) != str(ti) or \
                str(r.amount_out.tkn) != str(to) or any(not close(x, y, 1e-9, 1e-9 * max(abs(amt), 1e-3)) for x, y in zip(r.amounts_in, ai)) or \
                any(not close(x, y, 1e-9, 1e-9 * max(map(abs, ao))) for x, y in zip(r.amounts_out, ao)):
            res.violate("wrong transport result", f"{desc}: {r.amount_in.amount!r}->{r.amount_out.amount!r} {r.amounts_in}->{r.amounts_out}, "
                        f"must be {amt!r}->{sum(ao)!r} {ai}->{ao}", i)
        return "rec" if o["rec"] else "calc"

    @staticmethod
    def apply(M, es, amt, cap, record=True):
        f = amt / cap if amt else 0
        ai = [e["rem"] * f for e in es]
        ao = []
        for e, a in zip(es, ai):
            ao.append(M.record(e, a) if record else a * e["ao"] / e["ai"])
        return ai, ao

    def stats(self, G, M, res, desc, i, o):
        m0 = M.edges[o["seed"] % len(M.edges)]
        ti, to = m0["ti"], m0["to"]
        how = o["seed"] % 7

        def one(s, a, b):
            es = M.between(a, b)
            if s is None:
                return None if not es else f"nothing reported between {a} and {b}"
            rem = [e["rem"] for e in es]
            cap = sum(e["ai"] for e in es)
            ok = s.len == len(es) and [e.ix for e in s.edges] == [M.edges.index(e) for e in es] and close(s.amount_in.amount, cap) and \
                close(s.amount_in_remaining.amount, sum(rem), 1e-9, 1e-9 * cap) and close(s.amount_out.amount, sum(e["ao"] for e in es)) and \
                close(s.utilization, 1 - sum(rem) / cap, 1e-9, 1e-8) and close(s.price, sum(e["ao"] for e in es) / cap) and \
                all(close(x, 1 - e["rem"] / e["ai"], 1e-9, 1e-8) for x, e in zip(s.utilizations, es)) and \
                all(close(x, e["ao"] / e["ai"]) for x, e in zip(s.prices, es)) and \
                all(close(x, e["rem"], 1e-9, 1e-9 * e["ai"]) for x, e in zip(s.amounts_in_remaining, es)) and \
                list(s.amounts_in) == [e["ai"] for e in es] and list(s.amounts_out) == [e["ao"] for e in es]
            return None if ok else f"statistics {a}->{b} {s}, edges {es}"
        bad = None
        if how == 0:
            bad = one(G.edge_statistics(ti, to), ti, to)
        elif how == 1:
            a, b = G.edge_statistics(pair=f"{ti}/{to}")
            bad = one(a, ti, to) or one(b, to, ti)
        elif how == 2:
            bad = one(G.edge_statistics(edges=[e for e in G.edges if e.tkn_in == ti and e.tkn_out == to]), ti, to)
        elif how == 3:
            for t in M.nodes:
                s = G.node_statistics(t)
                ei, eo = M.between(None, t), M.between(t, None)
                if not ([e.ix for e in s.edges_in] == [M.edges.index(e) for e in ei] and [e.ix for e in s.edges_out] == [M.edges.index(e) for e in eo] and
                        s.nodes_in == {e["ti"] for e in ei} and s.nodes_out == {e["to"] for e in eo} and close(s.amount_in.amount, sum(e["ao"] for e in ei)) and
                        close(s.amount_out.amount, sum(e["ai"] for e in eo)) and
                        close(s.amount_out_remaining.amount, sum(e["rem"] for e in eo), 1e-9, 1e-9 * sum(e["ai"] for e in eo)) and s.node is G.node_by_tkn(t)):
                    bad = f"node statistics {s}"
        elif how == 4:
            for a, b in ((ti, to), (ti, None), (None, to), (None, None), (to, ti)):
                es = M.between(a, b)
                if any(abs(e["rem"] - EPS) < 1e-9 + 1e-9 * e["ai"] for e in es):
                    continue
                if bool(G.has_capacity(a, b)) != any(e["rem"] > EPS for e in es):
                    bad = f"has_capacity({a}, {b}) is {G.has_capacity(a, b)}, edges {es}"
            for e, m in zip(G.edges, M.edges):
                z = 2e-9 + 1e-9 * m["ai"]
                if abs(m["rem"]) > z and (e.state.is_empty or bool(e.has_capacity) != (m["rem"] > 0)):
                    bad = f"edge {m} is reported empty: {e.state.is_empty}, with capacity: {e.has_capacity}"
        elif how == 5:
            st = G.state
            if len(st.nodes) != len(M.nodes) or len(st.edges) != len(M.edges) or any(x is not n.state for x, n in zip(st.nodes, G.nodes)) or \
                    any(x is not e.state for x, e in zip(st.edges, G.edges)):
                bad = "state does not list the states of nodes and edges"
        else:
            df = G.edgedf(consolidated=False)
            if list(df["amount_in"]) != [e["ai"] for e in M.edges] or list(df["amount_out"]) != [e["ao"] for e in M.edges] or \
                    list(df["tkn_in"]) != [e["ti"] for e in M.edges] or list(df["tkn_out"]) != [e["to"] for e in M.edges]:
                bad = f"edge table {df}"
            df = G.edgedf(resetindex=True)
            for _, r in df.iterrows():
                es = M.between(r["tkn_in"], r["tkn_out"])
                if not close(r["amount_in"], sum(e["ai"] for e in es)) or not close(r["amount_out"], sum(e["ao"] for e in es)):
                    bad = f"consolidated edge table {dict(r)}"
            if not bad and len(df) != len({(e["ti"], e["to"]) for e in M.edges}):
                bad = f"consolidated edge table has {len(df)} rows"
        if bad:
            res.violate("wrong statistics", f"{desc}: {bad}", i)


class C31(Graph):
    pid = "C31"
    quick_runs = 900
    rule = ("a run is non-trivial when at least one cycle was executed hop by hop; distinct interleavings are counted by the order in which the "
            "clients' hops were executed together with their outcomes")

    def generate(self, rng, tier):
        if rng.random() < .8:
            toks = self.TOK[:rng.randint(2, 5)]
            edges = self.gen_edges(rng, toks, rng.randint(3, 12))
        else:                   # few edges, long cycles
            toks = self.TOK + ["DAI", "UNI", "MKR"][:rng.randint(1, 3)]
            rng.shuffle(toks)
            edges = self.gen_edges(rng, toks, len(toks) + rng.randint(0, 4))
            for e, a, b in zip(edges, toks, toks[1:] + toks[:1]):
                e.update(ti=a, to=b)
            if rng.random() < .3:
                edges.pop(rng.randrange(len(toks)))
            rng.shuffle(edges)
        ops = []
        for _ in range(rng.randint(1, 5) * (1 if tier == "quick" else rng.choice([1, 3]))):
            k = rng.choices(["run", "all", "race", "add", "dup"], [4, 2, 4, 1, 1])[0]
            o = {"op": k, "c": rng.randrange(999), "tok": rng.choice([None, rng.randrange(9), rng.randrange(9), "XYZ"]), "any": rng.choice([None, True, False]),
                 "str": rng.random() < .6}
            if k == "race":
                o["clients"] = [{"c": rng.randrange(999), "tok": rng.choice([None, rng.randrange(9)]), "f": rng.choice([1, 1, .5, .3])} for _ in range(rng.randint(1, 4))]
                o["sched"] = [rng.randrange(99) for _ in range(40)]
            if k == "add":
                o.update(self.gen_edges(rng, self.TOK[:4], 1)[0])
            if k == "dup":
                o["cons"] = rng.random() < .5
            if k == "all":
                o["fmt"] = rng.choice(["tuple", "gen", "dicts", "df", "df", "aggrdf", "f"])
            ops.append(o)
        return {"edges": edges, "ops": ops}

    def execute(self, p):
        res = Result()
        so = sys.stdout
        sys.stdout = NullOut()
        try:
            self.run(p, res)
        finally:
            sys.stdout = so
        return res

    @staticmethod
    def enumerate(M):
        """all elementary cycles, as rotations starting at the smallest node index"""
        ix = {t: i for i, t in enumerate(M.nodes)}
        nb = {i: sorted({ix[e["to"]] for e in M.edges if ix[e["ti"]] == i}) for i in ix.values()}
        out = set()

        def walk(path):
            for b in nb[path[-1]]:
                if b == path[0]:
                    out.add(tuple(path))
                elif b > path[0] and b not in path:
                    walk(path + [b])
        for s in nb:
            walk([s])
        return out

    @staticmethod
    def predict(M, toks):
        """(amount_in, amount_out) of the largest flow around the cycle toks[0] -> ... -> toks[0]"""
        n = len(toks)
        flow = scale = None
        for j in range(n):
            es = M.between(toks[j], toks[(j + 1) % n])
            cap, out = sum(e["ai"] for e in es), sum(e["ao"] for e in es)
            if flow is None:
                flow, start, scale = cap, cap, 1.0
            elif flow > cap:
                scale *= cap / flow
                flow = cap
            flow = flow * out / cap
        return start * scale, flow

    def checkrun(self, G, M, res, desc, i, cyc, tok, any_, r, err):
        toks = [n.tkn for n in cyc.data]
        known = tok is None or tok in toks
        if err is not None:
            if known or any_ is not False:
                res.violate("cycle can not be run", f"{desc}: cycle {toks} from {tok}: {err!r}", i)
            return None
        if not known and any_ is False:
            res.violate("unknown token accepted", f"{desc}: cycle {toks} from {tok}, result {r.token}", i)
            return None
        first = tok if tok in toks else toks[0]
        s = toks.index(first)
        rot = toks[s:] + toks[:s]
        ain, aout = self.predict(M, rot)
        mx = max(abs(ain), abs(aout))
        if r.token != first or r.start_ix != s:
            res.violate("wrong start of the cycle", f"{desc}: cycle {toks} from {tok}: token {r.token}, index {r.start_ix}, must be {first}, {s}", i)
        elif not (close(r.amount_in, ain) and close(r.amount_out, aout) and close(r.profit, aout - ain, 1e-9, 1e-9 * mx)):
            res.violate("reported arbitrage is wrong", f"{desc}: cycle {rot}: in {r.amount_in!r} out {r.amount_out!r} profit {r.profit!r}, "
                        f"must be {ain!r} {aout!r} {aout - ain!r}", i)
        elif not (r.length == len(toks) and close(r.r, aout / ain - 1, 1e-9, 1e-9) and close(r.rpcs, (aout / ain - 1) / len(toks), 1e-9, 1e-9) and
                  close(r.ppcs, (aout - ain) / len(toks), 1e-9, 1e-9 * mx) and r.cycle is cyc):
            res.violate("reported arbitrage is wrong", f"{desc}: cycle {rot}: {r.length} {r.r} {r.rpcs} {r.ppcs}", i)
        return rot, ain, aout

    def pick(self, G, M, cycles, c, tok, as_str=True):
        cyc = cycles[c % len(cycles)]
        t = None if tok is None else tok if isinstance(tok, str) else M.nodes[tok % len(M.nodes)]
        return cyc, t, (t if as_str or t is None or t == "XYZ" else G.node_by_tkn(t))

    def run(self, p, res):
        import carbon.tools.arbgraphs as ag
        G, M = ag.ArbGraph(), Model()
        for e in p["edges"]:
            self.build(ag, G, M, e)
        hist = []
        for i, o in enumerate(p["ops"]):
            if res.violations:
                return
            k = o["op"]
            desc = f"op {i} {o}"
            res.simtime += 1
            if k == "add":
                self.build(ag, G, M, o)
                continue
            if k == "dup":
                G, M = G.duplicate(consolidate=o["cons"]), M.duplicate(o["cons"])
                d = self.compare(G, M)
                if d:
                    res.violate("duplicate differs", f"{desc}: {d}", i)
                continue
            cycles = G.cycles()
            got = [tuple(n.ix for n in c.data) for c in cycles]
            canon = sorted(g[g.index(min(g)):] + g[:g.index(min(g))] for g in got)
            if canon != sorted(self.enumerate(M)):
                res.violate("cycles are wrong", f"{desc}: {got}, must be {sorted(self.enumerate(M))}", i)
                return
            if [c.uid for c in cycles] != list(range(len(cycles))) or any(c.graph is not G for c in cycles):
                res.violate("cycles are wrong", f"{desc}: uid {[c.uid for c in cycles]}", i)
                return
            if not cycles:
                hist.append([k, "none"])
                continue
            kw = {} if o["any"] is None else {"allow_any_token": o["any"]}
            if k == "run":
                cyc, t, arg = self.pick(G, M, cycles, o["c"], o["tok"], o["str"])
                r = err = None
                try:
                    r = cyc.run(token=arg, **kw) if o["c"] % 2 else G.run_arbitrage_cycle(cyc, arg, **kw)
                except Exception as ex:
                    err = ex
                self.checkrun(G, M, res, desc, i, cyc, t, o["any"], r, err)
                hist.append([k, len(cyc), err is None])
            elif k == "all":
                self.runall(G, M, res, desc, i, o, cycles, kw)
                hist.append([k, len(cycles), o["fmt"]])
            else:
                hist.append([k, self.race(ag, G, M, res, desc, i, o, cycles)])
            if not res.violations:
                d = self.compare(G, M)
                if d:
                    res.violate("flows do not add up" if k == "race" else "a query changed the graph", f"{desc}: {d}", i)
            res.trace.append(json.dumps([hist[-1], [repr(e.state.amount_in_remaining) for e in G.edges], [repr(n.state.amount) for n in G.nodes]]))
            res.states.add(h8(res.trace[-1]))
        res.inter.add(h8(hist))

    def runall(self, G, M, res, desc, i, o, cycles, kw):
        import pandas as pd
        _, t, arg = self.pick(G, M, cycles, o["c"], o["tok"], o["str"])
        err = rs = out = None
        try:
            out = G.run_arbitrage_cycles(cycles, arg, format=None if o["fmt"] in ("tuple", "f") else o["fmt"], **kw)
            if o["fmt"] == "gen":
                out = tuple(out)
            rs = out if o["fmt"] in ("tuple", "gen", "f") else G.run_arbitrage_cycles(cycles, arg, **kw)
            if o["fmt"] == "f":
                out = G.run_arbitrage_cyclesf(rs)
        except Exception as ex:
            err = ex
        if err is not None:
            if t is None or o["any"] is not False or all(t in [n.tkn for n in c.data] for c in cycles):
                res.violate("cycle can not be run", f"{desc}: {err!r}", i)
            return
        if len(rs) != len(cycles):
            res.violate("reported arbitrage is wrong", f"{desc}: {len(rs)} results for {len(cycles)} cycles", i)
            return
        for c, r in zip(cycles, rs):
            self.checkrun(G, M, res, desc, i, c, t, o["any"], r, None)
            if res.violations:
                return
        rows = {r.cycle.uid: r for r in rs}
        fmt = o["fmt"]
        if fmt == "dicts":
            for d in out:
                r = rows[d["uid"]]
                if (d["token"], d["profit"], d["amount_in"], d["amount_out"], d["length"]) != (r.token, r.profit, r.amount_in, r.amount_out, r.length):
                    res.violate("formats disagree", f"{desc}: {d} {r}", i)
        elif fmt in ("df", "f"):
            for u, d in out.iterrows():
                r = rows[u]
                if d["token"] != r.token or not close(d["profit"], r.profit) or not close(d["amount_in"], r.amount_in) or not close(d["amount_out"], r.amount_out):
                    res.violate("formats disagree", f"{desc}: {dict(d)} {r}", i)
        elif fmt == "aggrdf":
            for (tk, u), d in out.iterrows():
                if u == "":
                    w = [r for r in rs if r.token == tk]
                    if not close(d["profit"], sum(r.profit for r in w) / len(w), 1e-9, 1e-9 * max(r.amount_in for r in w)):
                        res.violate("formats disagree", f"{desc}: aggregate {dict(d)}", i)
                elif rows[int(u)].token != tk or not close(d["profit"], rows[int(u)].profit):
                    res.violate("formats disagree", f"{desc}: {dict(d)} {rows[int(u)]}", i)
        if fmt in ("dicts", "df", "f") and len(out) != len(rs):
            res.violate("formats disagree", f"{desc}: {len(out)} rows for {len(rs)} results", i)

    def race(self, ag, G, M, res, desc, i, o, cycles):
        """several clients found their cycles on the same graph; the scheduler interleaves their hops"""
        G.reset_state()
        M.reset()
        cl = []
        for c in o["clients"]:
            cyc, t, arg = self.pick(G, M, cycles, c["c"], c["tok"])
            r = G.run_arbitrage_cycle(cyc, arg)
            chk = self.checkrun(G, M, res, desc, i, cyc, t, None, r, None)
            if res.violations or chk is None:
                return "stop"
            rot, ain, aout = chk
            x = ain * c["f"] * (1 - 1e-9)
            n = G.node_by_tkn(rot[0])
            n.state.amount += x
            M.setamount(rot[0], M.amount[rot[0]] + x)
            cl.append(dict(rot=rot, hop=0, have=x, start=x, want=aout * c["f"], done=False))
        order = []
        it = itertools.cycle(o["sched"])
        steps = 0
        while any(not c["done"] for c in cl):
            steps += 1
            live = [j for j, c in enumerate(cl) if not c["done"]]
            j = live[next(it) % len(live)]
            c = cl[j]
            a, b = c["rot"][c["hop"]], c["rot"][(c["hop"] + 1) % len(c["rot"])]
            es = M.between(a, b)
            cap = sum(e["rem"] for e in es)
            v = verdict(c["have"], [(cap, sum(e["ai"] for e in es)), (M.amount[a], M.mag[a])])
            try:
                r = G.transport(ag.Amount(c["have"], G.node_by_tkn(a)), a, b)
                ok = True
            except Exception as ex:
                ok, err = False, ex
            order.append((j, ok))
            if ok:
                if v == "no":
                    res.violate("capacity sold twice", f"{desc}: client {j} sends {c['have']!r} {a}->{b}, left {cap!r} of {es}", i)
                    return order
                _, ao = C30.apply(M, es, c["have"], cap)
                if not close(r.amount_out.amount, sum(ao)):
                    res.violate("wrong amount transported", f"{desc}: client {j} {a}->{b} receives {r.amount_out.amount!r}, must be {sum(ao)!r}", i)
                    return order
                c["have"] = r.amount_out.amount
                c["hop"] += 1
                c["done"] = c["hop"] == len(c["rot"])
                res.nontrivial = True
            else:
                if v == "yes":
                    res.violate("valid transport refused", f"{desc}: client {j} {c['have']!r} {a}->{b}, left {cap!r}: {err!r}", i)
                    return order
                c["done"] = True
                if len(cl) == 1 and v == "no":
                    res.violate("reported arbitrage can not be executed", f"{desc}: {c} refused on {a}->{b}: {err!r}", i)
                    return order
        if len(cl) == 1 and cl[0]["hop"] == len(cl[0]["rot"]):
            c = cl[0]
            single = all(len(set((M.nodes.index(x), M.nodes.index(y)) for x, y in [(c["rot"][q], c["rot"][(q + 1) % len(c["rot"])])])) == 1 for q in range(len(c["rot"])))
            if single and not close(c["have"], c["want"], 1e-6):
                res.violate("reported arbitrage can not be executed", f"{desc}: {c['rot']} promised {c['want']!r}, delivered {c['have']!r}", i)
        res.faults["hops of competing clients"] += len(order) if len(cl) > 1 else 0
        res.faults["hops refused because a competitor took the capacity"] += sum(not ok for _, ok in order)
        res.inter.add(h8(order))
        return order
