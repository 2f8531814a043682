#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables below"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "carbon/simulators/carbon_simulator.py"
BASE, EX, EXX, AL, FA = ("carbon/routers/base_router.py", "carbon/routers/exact_base_router.py",
                         "carbon/routers/exact_router_x0y0n.py", "carbon/routers/alpha_router.py",
                         "carbon/routers/fast_router.py")
ORD, PAIR, UI = "carbon/order.py", "carbon/pair.py", "carbon/carbon_order_ui.py"
BOOKSTATE = [{"name": "orders", "meaning": "order id -> curve with balance and capacity"},
             {"name": "trades", "meaning": "trade log: per-route rows and one aggregate row per trade"},
             {"name": "numtrades", "meaning": "number of the next trade"}]
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe="", hook="none", level="exploration",
         note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state or [], observe=observe, hook=hook, level=level, note=note, na=na))


# ------------------------------------------------------------------ the order book
prop("C01", "Trading and liquidity operations conserve every token",
     "Whatever sequence of deposits, trades, quotes, deletions and failures happens, the total of each token held by the "
     "book changes by exactly what was deposited, withdrawn, or reported to a trader as paid and received (up to the "
     "1e-12 ledger rounding). Within a trade every strategy gives up and receives exactly the amounts its own fills "
     "state, and no other strategy's holdings change.",
     ["histories", "schedules", "fault_sequences", "configurations"],
     "every interleaving of operations of any number of liquidity providers and traders, all matching methods, with "
     "operations refused or interrupted at any point",
     "the tests run a handful of fixed trades and compare a few amounts; they never sum the book over a history, nor "
     "interrupt an operation",
     [SIM], [("trade execution", f"{SIM}: CarbonSimulatorUI._trade"), ("strategy entry", f"{SIM}: add_strategy"),
             ("deletion", f"{SIM}: delete_order")], BOOKSTATE, "order balances, returned trade tables")
prop("C02", "Every book operation happens completely or not at all",
     "A trade, strategy creation or deletion that does not finish - because it is refused, fails internally or is "
     "interrupted anywhere by an exhausted resource, a broken output stream or the user - leaves the order book and the "
     "trade log exactly as before; if it did take effect it is complete: all fills, all balances, all log entries, both "
     "orders of a strategy. An operation reported as failed never takes effect.",
     ["fault_sequences", "crash_points", "histories"],
     "every point inside an operation at which an exception can strike, after any history",
     "no test injects a failure inside an operation; the crash points per trade are in the thousands",
     [SIM, ORD] , [("trade execution", f"{SIM}: CarbonSimulatorUI._trade"), ("strategy entry", f"{SIM}: add_strategy"),
                   ("deletion", f"{SIM}: delete_order")], BOOKSTATE, "book and log before and after the operation")
prop("C03", "Quotes and refused trades leave no mark and predict execution",
     "Asking for a quote, or submitting a trade that is refused, never changes a balance, capacity or price, now or in "
     "any later operation: the book evolves exactly as if it had not been asked. A quote is firm: executing the same "
     "trade with nothing in between yields exactly the quoted fills, amounts and price.",
     ["histories", "schedules", "inputs"],
     "every history with quotes and refused trades interleaved anywhere, all matching methods",
     "the tests look at one quote at a time and only at its result, not at the effect on later operations",
     [SIM, AL, EX, FA], [("dry run", f"{SIM}: CarbonSimulatorUI._trade execute flag"),
                         ("matching", f"{EX}: ExactBase.match")], BOOKSTATE,
     "twin run without the quotes; quote table versus trade table")
prop("C04", "Traders' price and amount limits are honoured exactly",
     "A trade with a limit price or limit amount is only ever executed at that limit or better from the trader's point of "
     "view, whatever the pair's direction, the side, the matching method and what other clients did in between. A trade "
     "whose quote meets the limit by a clear margin is executed, and one that misses it is reported as a limit failure "
     "and changes nothing.",
     ["inputs", "histories", "schedules", "configurations"],
     "limits on both sides of the achievable price, in both tokens, both sides, all matching methods, after any history",
     "the limit tests use a few fixed books; the price a limit sees depends on every earlier operation",
     [SIM, PAIR], [("limit check", f"{SIM}: CarbonSimulatorUI._trade"), ("comparison", f"{PAIR}: CarbonPair.limit_is_met")],
     BOOKSTATE, "realised amounts versus the limit")
prop("C05", "The book stays solvent and delivers what was asked",
     "No order ever holds a negative balance (beyond ledger rounding) or more than its capacity. A successful trade "
     "delivers exactly the requested amount, and a request beyond the available liquidity is refused unless partial "
     "fulfilment was asked for, in which case at most the available liquidity and never more than the request is traded. "
     "The exact and fast methods do not refuse a request for which the liquidity is there.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "requests below, at and above the liquidity of books shaped by any history",
     "the tests sample a few amounts on fresh books; insolvency shows after sequences that drain and refill orders",
     [SIM, BASE, EX, AL, FA], [("liquidity check", f"{BASE}: sufficient_liquidity_exists"),
                               ("matching", f"{EX}: ExactBase.match"), ("matching", f"{FA}: FastRouter.match")],
     BOOKSTATE, "order balances; delivered versus requested amounts")
prop("C06", "Every fill is priced on the order's own bonding curve",
     "Whichever matching method splits a trade, each order that takes part receives for what it sells exactly the amount "
     "its bonding curve prescribes from its current balance, and the reported trade price is the ratio of the amounts "
     "in the pair's quotation.",
     ["histories", "inputs", "configurations"],
     "orders of any range, capacity and fill state reached by any history, all matching methods and both directions",
     "tests compare selected trades with precomputed numbers; orders in partially filled, refilled, tiny or constant "
     "price states are hardly reached",
     [EX, EXX, AL, FA, ORD, SIM], [("curve", f"{ORD}: Order.x0/y0/n"), ("input amount", f"{EX}: ExactBase.dxdy"),
                                   ("input amount", f"{FA}: amt_by_src/amt_by_target")], BOOKSTATE,
     "route rows against an independent curve model")
prop("C07", "No sequence of trades extracts value from liquidity providers",
     "If every strategy sells above and buys below a common reference price, then no sequence of trades by any number of "
     "traders, in any order and through any matching method, lowers the value of any single strategy at that reference "
     "price or leaves the traders jointly with a profit at it.",
     ["histories", "schedules"],
     "every interleaving of trades of several traders over books of non-crossing strategies, including round trips",
     "the existing tests do not follow value over trade sequences at all",
     [SIM, EX, FA, AL], [("trade execution", f"{SIM}: CarbonSimulatorUI._trade"), ("matching", f"{EX}: ExactBase.match")],
     BOOKSTATE, "value of every strategy at the reference price after every operation")
prop("C08", "Deleting a strategy removes exactly that strategy",
     "Deletion removes the named order and the order linked to it, reports exactly those, and nothing else: all other "
     "strategies, their balances, links and prices are untouched, no order is left linked to a missing one, and later "
     "trades behave as in a book that only ever contained the remaining orders in their present state. Deleting an "
     "unknown order changes nothing.",
     ["histories", "schedules"],
     "every position of a deletion in any history, every id including the first one",
     "tests delete one or two orders in fresh books and never look at what trades do afterwards",
     [SIM], [("deletion", f"{SIM}: CarbonSimulatorUI.delete_order")], BOOKSTATE, "order book, differential trade")
prop("C09", "Simulators are isolated from each other",
     "Several simulators used in one process, their operations interleaved in any way or run in concurrent threads, each "
     "produce exactly the books, trade logs and answers they produce when used alone.",
     ["schedules", "histories", "configurations"],
     "every interleaving of operations of several simulators, at operation and at source-line granularity across threads",
     "tests use simulators strictly one after the other; shared state between instances only shows under interleaving",
     [SIM, AL, BASE, ORD], [("shared matcher", f"{AL}: AlphaRouter.exact_router"),
                            ("arithmetic context", f"{ORD}: getcontext().prec")], BOOKSTATE,
     "each simulator against its solo run", note="threads run under a deterministic scheduler that switches at source lines")
prop("C10", "Failing requests are contained and the book stays usable",
     "With error containment on, no request, however malformed, raises: it returns a failure record with the reason; with "
     "containment off it raises. Either way the book is unchanged, every later valid operation works exactly as if the "
     "bad request had never been made, and every request ends within a bounded number of steps.",
     ["inputs", "histories", "fault_sequences"],
     "malformed and unsatisfiable requests and injected internal failures at any place of any history",
     "the tests check a few error messages, not what a failure leaves behind for later operations",
     [SIM, BASE, EX, AL], [("error containment", f"{SIM}: raiseonerror handling"), ("matching loop", f"{EX}: ExactBase.match")],
     BOOKSTATE, "result records; twin run without the bad requests")
prop("C11", "The trade log is a complete, immutable, replayable record",
     "Every trade and quote adds consecutively numbered rows: its fills and one aggregate whose amounts are the sums of "
     "the fills; rows never change or vanish afterwards, and a row is marked executed exactly when the balances moved. "
     "Replaying the executed fills on the deposits reproduces every balance at any time.",
     ["histories", "schedules", "fault_sequences"],
     "every history of trades, quotes, refusals, failures and deletions",
     "the tests look at the last trade's table only",
     [SIM], [("log rows", f"{SIM}: CarbonSimulatorUI._trade"), ("log view", f"{SIM}: state")], BOOKSTATE,
     "trade log, returned trade tables, state()")
prop("C12", "A history determines its outcome",
     "The same sequence of operations on the same starting book always produces bit-identical results, independent of "
     "the process's hash seed, the thread it runs in, the wall clock, the state of the global random generators and what "
     "ran before in the process.",
     ["schedules", "configurations", "histories"],
     "every environment: hash seed, thread, clock and random state, earlier activity in the process",
     "the test-suite runs in one environment only",
     [SIM, AL, EX, FA, ORD], [("precision", f"{ORD}: getcontext().prec"), ("ordering", f"{AL}: sorting of orders")],
     BOOKSTATE, "digest of all results under perturbed environments")
prop("C13", "State reports are faithful snapshots",
     "At any time the reported state shows exactly the orders, balances, capacities, prices in pair quotation, links, "
     "trades and per-token liquidity the book has; filtering by pair selects exactly that pair. Reports are detached: "
     "reading them changes nothing, later operations do not alter an earlier report, and modifying a report does not "
     "alter the book.",
     ["histories", "schedules"],
     "reports taken anywhere in any history by any client",
     "tests read the state of small fresh books",
     [SIM, UI], [("state report", f"{SIM}: state, _to_pandas, liquidity"), ("order view", f"{UI}: CarbonOrderUI.from_order")],
     BOOKSTATE, "state(), liquidity()")
prop("C14", "Trades only touch orders that are eligible",
     "A trade is filled only by orders that are enabled, non-empty, sell the token the trader wants in exchange for the "
     "token the trader offers, and are among the positions the trader admitted, by no more of them than the trader's "
     "order threshold where the method supports one, and each at most once. If no order is eligible the trade is refused.",
     ["inputs", "histories", "configurations"],
     "books with several pairs, both pair directions, one-sided and disabled strategies, every admissible restriction, "
     "after any history",
     "tests use one pair and mostly all orders",
     [SIM, AL, PAIR], [("order selection", f"{SIM}: CarbonSimulatorUI._trade"),
                       ("threshold", f"{AL}: AlphaRouter.match_by_target/match_by_src")], BOOKSTATE, "route rows")
prop("C15", "Exact matching gives the trader the best possible execution",
     "The exact method achieves the best total price that any split over the eligible orders could achieve, and so does "
     "the threshold method when its threshold does not exclude orders; no method ever gives the trader more than that "
     "optimum.",
     ["inputs", "histories", "configurations"],
     "books with overlapping, disjoint, constant-price and partially filled orders reached by any history",
     "tests compare precomputed splits of a few books",
     [EX, EXX, AL, FA], [("matching", f"{EX}: ExactBase.match"), ("split", f"{EXX}: amt_by_src/amt_by_target")], BOOKSTATE,
     "realised amounts against a bisection optimum over the reference curves")
prop("C16", "Strategies enter the book exactly as described",
     "A created strategy consists of two orders linked to each other that sell the right tokens of the right pair with "
     "exactly the given balances, price ranges (in any order of start and end), capacities or marginal prices; a missing "
     "range disables that side; so does one taken over from the SDK, whose budgets are the capacities of which the encoded curves tell how much "
     "is left. Contradictory or invalid descriptions (half a range, both a capacity and a marginal price, a capacity below "
     "the balance, a token that is not of the pair, a negative balance) are refused; ids are never reused.",
     ["inputs", "histories"],
     "all combinations of token, pair direction, ranges, amounts, marginal prices and capacities, in books of any history",
     "tests enter a few hand-written strategies",
     [SIM, ORD, PAIR], [("strategy entry", f"{SIM}: add_strategy, _add_order_sell_tkn"), ("curve set-up", f"{ORD}: Order.__post_init__"),
      ("taken over from the SDK", f"{SIM}: add_fromsdk; carbon/carbon_order_ui.py: CarbonOrderUI.from_SDK")],
     BOOKSTATE, "order book after entry")
exec(open(os.path.join(HERE, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props_more.py")) else None

# ------------------------------------------------------------------ output
sys.path.insert(0, HERE)


def main():
    from_registry = set()
    rt = open(os.path.join(HERE, "dst", "registry.py")).read() if os.path.exists(os.path.join(HERE, "dst", "registry.py")) else ""
    import re
    from_registry = set(re.findall(r'^    "([A-Z]\d\d)"', rt, re.M))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "state": p["state"], "observe_at": p["observe"], "hook_needed": None if p["hook"] == "none" else p["hook"]}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        if p["id"] not in from_registry:
            na.append({"property": p["id"], "reason": "not built yet"})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"/opt/venv/bin/python check.py --property {p['id']} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python check.py --property {p['id']} --tier thorough",
            "technique": "deterministic simulation with fault injection",
            "level": p["level"],
            "level_note": p["note"] or "seeded search over client schedules, inputs and fault sequences; bounded by the number of seeds, not exhaustive"})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/selftest.py",
         "hooks": {"guard": "none: all seams are reached from outside /repo", "enable": "nothing to enable", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo. Commits in /repo are repairs of genuine defects, see KNOWN_FINDINGS.json and DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(P), "properties", len(checks), "checks", len(na), "not applicable")


main()
