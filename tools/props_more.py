# ------------------------------------------------------------------ the SDK as a distributed system
SDKB, SDK0, SDKM = "carbon/sdk/sdkbase.py", "carbon/sdk/carbonsdk0.py", "carbon/sdk/carbonsdk.py"
_have = sorted(os.path.relpath(os.path.join(r, f), "/repo") for r, d, fs in os.walk("/repo/carbon/sdk") for f in fs if f.endswith(".py"))
SRV, DSP, TLB = ("resources/sdk/server/sdkserver.mjs", "resources/sdk/server/sdkserver_dispatch.mjs",
                 "resources/sdk/server/sdkserver_testlib.mjs")
SDKFILES = [f for f in _have if not f.endswith("__init__.py")]
SDKSTATE = [{"name": "requests in flight", "meaning": "client calls, wire messages, back-end calls and their replies"},
            {"name": "server results", "meaning": "request id -> pending, failed or finished result"}]
prop("C20", "A disturbed or failed SDK call is never mistaken for a result",
     "An SDK call returns a value only if the server answered that very call with that value; every transport error, error "
     "status, garbled or foreign reply, unknown end point and back-end failure surfaces as a failure. Conversely a call whose "
     "answer arrives is not reported as failed, whatever the client's settings.",
     ["fault_sequences", "schedules", "inputs", "configurations"],
     "every combination of network fault, server crash, back-end failure and concurrent clients, all client methods and settings",
     "there is no test of the SDK client against a failing network or server; the real ones need a live node",
     SDKFILES + [SRV, DSP], [("client call", f"{SDKB}: call"), ("reply", f"{SRV}: route handlers")], SDKSTATE,
     "what the client method returns or raises versus what the back end answered")
prop("C21", "SDK requests go where configured, say what the caller asked, and act at most once",
     "Every request is sent to the configured server with the configured token and nowhere else. One client call causes at most "
     "one action at the back end, of exactly the operation and with exactly the arguments the caller gave (documented defaults "
     "where omitted), also when replies are lost or the server restarts; a submission says whether to sign.",
     ["fault_sequences", "schedules", "inputs", "configurations"],
     "all client methods, arguments and settings under message loss, delay, crash and restart",
     "transactions are only composed by hand in notebooks; loss of a reply after the server acted is never tested",
     SDKFILES + [SRV, DSP], [("client call", f"{SDKB}: call"), ("dispatch", f"{DSP}: dispatch table")], SDKSTATE,
     "requests on the wire and calls at the back end")
prop("C22", "Asynchronous SDK results reach the call that asked for them",
     "Each accepted asynchronous call has its own request id; polling it reports pending until the call finishes and from then on "
     "exactly that call's complete result or failure, for any interleaving of calls, polls, completions and clock jumps. A "
     "restarted server never answers an id it did not issue with somebody else's result.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of starts, polls, completions, failures, crashes and clock changes of several clients",
     "the tests never start two calls at once",
     SDKFILES + [SRV, DSP], [("request ids", f"{SRV}: ascall handler"), ("results", f"{SRV}: result handler")], SDKSTATE,
     "ids handed out and poll answers")
prop("C23", "Nothing is done or revealed without the token",
     "A request that does not carry the exact token of the server it reaches is refused, whatever its method, path or body: it "
     "causes no action at the back end, reveals no result, address or token, and does not disturb the calls of legitimate users.",
     ["inputs", "schedules", "histories"],
     "all end points with missing, partial, foreign and oddly typed tokens, interleaved with legitimate traffic",
     "no test sends an unauthorised request",
     [SRV], [("authorisation", f"{SRV}: token check")], SDKSTATE, "replies and back-end calls per request")
prop("C24", "The SDK server answers every request once and survives failing calls",
     "Every request that reaches a running server is answered exactly once, and no request, however malformed, and no failure or "
     "delay of the back end ends the server process; a call whose back end answered is reported as answered, with that answer, "
     "and a call whose back end failed as failed.",
     ["inputs", "fault_sequences", "schedules"],
     "valid and malformed requests to every end point with failing, slow or reordered back-end answers",
     "no test sends the server a malformed request or lets the back end fail",
     [SRV, DSP], [("route handlers", f"{SRV}"), ("erc20 handler", f"{SRV}: erc20 route")], SDKSTATE,
     "replies per request and death of the server process")
prop("C25", "The pair-level SDK acts on the pair, side and amounts the user named",
     "Liquidity, ranges, depth and markets obtained for a pair and side are those of that side of that pair, in the pair's price "
     "quotation; a strategy is created, and a trade prepared and composed, in the direction, with the ranges, amounts and the "
     "protection the user named, with the client's own list of tokens. If any part of a multi-request operation fails, no result is returned and nothing is composed.",
     ["inputs", "fault_sequences", "histories"],
     "pairs in both quotations, both sides, scalar and list arguments, with failures in any of the requests an operation needs",
     "the m-layer is only exercised by hand against a live server",
     SDKFILES, [("m-layer", f"{SDKM}: mGet..., mCreateStrategy, mPrepareTrade, mComposeTradeTransaction")], SDKSTATE,
     "values returned to the user; calls at the back end")

# ------------------------------------------------------------------ curves and path simulation
OUI = "carbon/carbon_order_ui.py"
SIMU, STR, PGEN, PINT = (f"carbon/helpers/{x}.py" for x in ("simulation", "strategym", "pathgenerator", "pathinterpolation"))
prop("C17", "Linked order curves trade along their own price range and credit each other exactly",
     "Whatever sequence of trades, targeted trades, dry runs, liquidity additions and refused or interrupted requests is applied to "
     "a set of curves, a curve gives up and receives the amounts of its own bonding curve, the linked curve is credited exactly "
     "what was paid, no other curve changes, balances stay between zero and capacity, a trade to a price ends at that price "
     "or at the end of the range, a dry run changes nothing and foretells the execution, and a refused or interrupted request "
     "leaves everything as it was.",
     ["histories", "fault_sequences", "inputs"],
     "every sequence of operations on single, linked and chained curves of any range, with interruption at every source line",
     "the tests trade a few fixed amounts on one or two curves and never interrupt or repeat them",
     [OUI, "carbon/pair.py"], [("trading", f"{OUI}: selly, buyx, tradeto"), ("liquidity", f"{OUI}: addliqy, linked")],
     [{"name": "curve state", "meaning": "balance y and capacity yint of every curve"}], "returned trade records and curve fields")
prop("C18", "A simulated strategy earns exactly what its orders would have traded along the path",
     "For every price path and portfolio, the holdings, values and marginal prices reported at each step are those of the "
     "described strategies (rescaled to the starting price when asked) whose orders trade at every step to the market price; the "
     "benchmark is the initial holding; a price never acts on earlier results; strategies in a portfolio do not interact; leading "
     "empty prices are skipped; strategies and path are not modified and contradictory strategies are refused, also around an "
     "interrupted run, and so are strategies on different pairs in one portfolio. The strategies returned with the results are the "
     "ones simulated and do not move when run again; scaled and seeded copies of a strategy are what was asked for and never the "
     "strategy itself.",
     ["histories", "schedules", "inputs", "fault_sequences"],
     "all price paths (walks, jumps, reversals, gaps) as chosen by the simulated market, all strategy constructors and portfolios",
     "the tests compare a few lines of one fixed path",
     [SIMU, STR, OUI], [("simulation loop", f"{SIMU}: run_sim"), ("strategies", f"{STR}: strategy")],
     [{"name": "portfolio", "meaning": "balances of all orders after each price step"}], "the result object of run_sim")
prop("C19", "Generated and interpolated paths keep every observation and follow the requested process",
     "An interpolated path contains every given observation at its exact time and value, strictly increasing and evenly spaced "
     "points at the requested period in between, and noise of the requested (or estimated) volatility and none when that is zero; "
     "a generated path has the requested length, start, positivity, drift and volatility, columns are labelled as configured and "
     "independent. The result depends on the request and the random stream only, not on earlier or interrupted requests.",
     ["inputs", "histories", "fault_sequences", "configurations"],
     "all observation spacings, periods, volatilities and random streams, including extreme draws, interleaved and interrupted",
     "tests of random paths cannot fix the randomness, so they only look at shapes",
     [PGEN, PINT], [("interpolation", f"{PINT}: interpolate, interpolate_segment, gaussian_bridge"),
                    ("generation", f"{PGEN}: path, pathdf")],
     [{"name": "random stream", "meaning": "the draws the code receives, chosen by the simulator"}], "returned series and frames")

# ------------------------------------------------------------------ market data and files
CCF, FLS, PDR = "carbon/helpers/cryptocompare.py", "carbon/helpers/fls.py", "carbon/helpers/pdread.py"
prop("C26", "A market data query returns the provider's answer or an error, never anything else",
     "Whatever the network and the provider do (refused or broken connections, time-outs, error statuses, errors reported inside a "
     "successful response, maintenance pages, truncated bodies), a query returns exactly the data the provider gave for exactly the "
     "request the user described, or fails: with an exception, or with None when raiseonerror is off. Tables carry every row "
     "under its own time and column; an aggregate contains every requested pair and field, in the order requested, or fails.",
     ["fault_sequences", "inputs", "configurations", "histories"],
     "every query and option under every provider behaviour, alone and as one of the several requests of an aggregate",
     "there is no test of the client; the real provider needs the network and a key",
     [CCF], [("query", f"{CCF}: query, query_freqlypair"), ("aggregation", f"{CCF}: aggr_query, reformat_raw_df")],
     [{"name": "provider log", "meaning": "requests received and answers given"}], "requests on the wire versus value returned")
prop("C27", "The market data cache returns what was last completely stored, and asks the provider only on a miss",
     "For every sequence of cached queries, writes, reads, disk errors, crashes and restarts by clients sharing a cache: a hit "
     "returns the last value reported as stored and causes no request; a value is never one that was not stored; a miss asks the "
     "provider exactly once and only if allowed (readonfail, updateonfail), stores the answer only if told to, and never stores a "
     "failure; a failed read or write is reported as raiseonerror says, and an interrupted write leaves a miss, the old or the new value.",
     ["crash_points", "fault_sequences", "histories", "configurations"],
     "every interleaving of clients with different settings, every disk step failing, short, torn or the last before a crash",
     "no test touches the cache, and none can make the disk fail at a chosen step",
     [CCF], [("cache", f"{CCF}: cache, write_cache, _cache_xxx, cache_...")],
     [{"name": "cache files", "meaning": "item -> pickled value, absent or torn"}], "values returned, requests sent, files")
prop("C28", "The API key goes to the provider and nowhere else",
     "Each client uses the key it was configured with (explicit key, named environment variable, default variable, or none), "
     "sends it only in https requests to the provider, never sends another client's key, and never prints it, stores it in a file "
     "or puts it in an error of its own; a client without a key is refused.",
     ["configurations", "histories", "fault_sequences"],
     "several clients with different keys in one process, all operations, succeeding and failing",
     "no test looks at the requests, the output or the files of this client",
     [CCF], [("key", f"{CCF}: __init__, query, keydigest")], [], "requests, standard output, files and errors")
prop("C29", "Data files are read back exactly as stored or reported as unreadable",
     "What a save reports as written is what the matching load returns until the next save, through crashes and restarts, for text, "
     "binary, json and compressed files; data that cannot be encoded is refused and leaves the previous file; a disk error is "
     "reported, never hidden; reading changes no file. A time series read from a stored frame has exactly the rows and column of "
     "the requested window, of the frame as stored now, and changing the result changes nothing else; listings are complete.",
     ["crash_points", "fault_sequences", "inputs", "histories"],
     "every sequence of saves and reads with every disk step failing, short or fatal, all windows and options",
     "tests read two fixed files; no test makes the disk fail or rewrites a file between reads",
     [FLS, PDR, "carbon/helpers/helpers.py", SIMU], [("save and load", f"{FLS}: fsave, fload"), ("series", f"{PDR}: pdread"),
      ("frozen data", f"{SIMU}: StartConditions")], [{"name": "files", "meaning": "name -> stored data, absent or torn"}],
     "values returned and bytes on disk")

# ------------------------------------------------------------------ arbitrage tools
AG, CPCF, OPTF, PARF, SVF = "carbon/tools/arbgraphs.py", "carbon/tools/cpc.py", "carbon/tools/optimizer.py", "carbon/tools/params.py", "carbon/helpers/sharedvar.py"
prop("C30", "Flows over an arbitrage graph conserve amounts and never exceed what is there",
     "For any sequence of transports, resets, duplications, queries and failures on an arbitrage graph of trades: a transport "
     "is recorded on all edges it uses or on none; each edge converts at its own ratio and never carries more than its capacity, a node never "
     "gives more than it holds; edge and node states always equal the sum of the recorded flows, statistics and result objects report them; "
     "duplicates are independent; scaled, combined, reversed and duplicated edges convert as the edges they come from; what can be transported is, what can not is refused with ValueError and leaves no trace.",
     ["histories", "inputs", "fault_sequences"],
     "all graphs and all sequences of operations on several graphs, an operation failing at any source line of multi-edge transports",
     "the tests make a handful of transports on one fixed graph and never let one fail half way",
     [AG], [("transport", f"{AG}: Edge.transport, ArbGraph.transport"), ("state", f"{AG}: Node.State, Edge.State, reset_state, duplicate")],
     [{"name": "graph state", "meaning": "amount per node; amounts and transport count per edge"}], "graph, node and edge objects")
prop("C31", "Reported arbitrage cycles exist, are complete, and deliver what they promise",
     "The cycles found are exactly the simple cycles of the graph, each reported once; running a cycle from any of its tokens reports the "
     "amounts obtained by pushing the start amount through its edges one by one, the same in every documented format; executed hop by hop on "
     "the live graph by several clients in any interleaving, every client receives the promised amount unless another used up an edge, in "
     "which case the hop is refused, no capacity is sold twice and all flows add up. Analysing changes nothing.",
     ["schedules", "histories", "inputs"],
     "all graphs, start tokens and interleavings of clients executing cycles hop by hop",
     "the tests print cycles of one graph and never execute one while others trade",
     [AG], [("cycles", f"{AG}: cycles, _cycles"), ("evaluation", f"{AG}: run_arbitrage_cycle, run_arbitrage_cycles, run_arbitrage_cyclesf")],
     [{"name": "graph state", "meaning": "capacity and recorded flow of every edge"}], "cycle objects, arbitrage results, edge states")
prop("C32", "An optimizer result is a trade that can be made, is self-financing and is the best there is",
     "Asked for the most of a target token (simple_optimizer for two tokens, margp_optimizer for any number), whatever the liquidity curves, "
     "start prices and clock, the optimizer either reports an error or a result whose trades are possible on each curve and keep its invariant, net to zero in every token but the target, net to the reported result in the target, and to which no other "
     "trade is superior; new curves and trade instructions describe the same trades in every format; executing them leaves no arbitrage "
     "behind; the result is reproducible, does not depend on names or order and never changes the curves it was given, also when interrupted.",
     ["inputs", "histories", "fault_sequences", "schedules"],
     "all sets of constant product, levered, range and flat curves connecting two to four tokens, with any time readings and interruptions",
     "the tests compare optimizations of a few curve sets with recorded numbers",
     [OPTF, CPCF], [("root finding", f"{OPTF}: goalseek"), ("two-token optimum", f"{OPTF}: simple_optimizer"), ("n-token optimum", f"{OPTF}: margp_optimizer")],
     [{"name": "curves", "meaning": "the container the optimizer was given"}], "result objects, trade instructions, containers")
prop("C33", "Arbitrage routes executed against a moving market never take more than the pools hold",
     "Pools change hands between the computation of a route and its execution, and between its legs. Whatever arbitrageurs, traders and "
     "failures interleave: every executed trade keeps the invariant of its pool (plus fees) and never pays out more than the pool holds; a leg "
     "that is no longer possible is refused and changes nothing; a route executed on an untouched market delivers exactly what its "
     "instructions say; and once outside traders stop, repeated arbitrage removes the price differences within a bounded number of rounds. Seen through the "
     "adaptor for the reverse pair, a pool reports the mirrored price, bounds and quotes.",
     ["schedules", "histories", "fault_sequences", "inputs"],
     "every interleaving of two arbitrageurs and noise traders over shared pools, with refusals and interruptions between legs",
     "no test executes an optimizer result, let alone while the market moves",
     [OPTF, CPCF], [("execution", f"{CPCF}: ConstantProductCurve.execute"), ("instructions", f"{OPTF}: trade_instructions, curves_new")],
     [{"name": "pools", "meaning": "the current curve of every pool"}], "pools before and after each leg")
prop("C34", "A curve container holds exactly the curves put into it, finds them, and reads them back as stored",
     "For any sequence of additions (curves, inverted curves, lists, generators, containers, itself), selections, queries, executions and "
     "storage: a container holds exactly the curves given to it, in order, with their ids; every selection and statistic is that of a plain "
     "scan of these curves; a failing source of curves is reported; curves stored as dicts, table, csv or pickle come back equal, with "
     "parameters and ids, or as an error, also when the disk failed while writing; curve objects never change.",
     ["histories", "inputs", "crash_points", "fault_sequences"],
     "all histories of several containers sharing curves, every disk step failing, short, torn or the last before a crash",
     "the tests fill three containers and read one back, and never let a source or the disk fail",
     [CPCF, OPTF, "carbon/tools/tokenscale.py"], [("contents", f"{CPCF}: CPCContainer.add, bycids, bypair, filter_pairs"),
      ("storage", f"{CPCF}: asdicts, from_dicts, asdf, from_df; {OPTF}: pickle, unpickle")],
     [{"name": "containers", "meaning": "ordered curves, ids and token scale"}, {"name": "files", "meaning": "stored containers"}], "containers and files")
prop("C35", "Shared variables and parameter objects show every holder the same, last value",
     "A shared variable behaves like its number in every operation and comparison; an in-place operation changes it for all its holders and "
     "no one else, and a failing one leaves the value before or after. A parameter object holds exactly what was set, never replaces a value "
     "that must not be replaced, falls back to its own defaults, and shares nothing with what it was made from; looking never changes it.",
     ["schedules", "histories", "inputs", "fault_sequences"],
     "every interleaving of operations by several holders of the same and of different objects, with operations failing in the middle",
     "the tests apply each operator once",
     [SVF, PARF], [("shared value", f"{SVF}: SharedVar"), ("parameters", f"{PARF}: Params")],
     [{"name": "sharing", "meaning": "holder -> object -> value"}], "values read by the holders")

ANAF = "carbon/simulators/sim_analytics.py"
prop("C36", "Market analytics show what the book would trade at that moment, and leave it alone",
     "A price ladder, an effective price and the order book made from them show for each trade size exactly the amount and price a trader "
     "executing that trade on that simulator at that moment would get, and nothing for sizes that can not be traded; amounts and derived "
     "chart data belong to the size they stand next to. A liquidity map puts the whole balance of every active order of the pair, and "
     "nothing else, into its price range. Looking never changes the book, and asks no other simulator.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "every book reached by any history of deposits, trades, deletions and faults, both sides, all ways to name simulator and pair, all size ladders",
     "the tests draw one chart of one fixed book and compare a few words of its description",
     [ANAF, SIM, UI], [("ladder", f"{ANAF}: Analytics.simulate_trades, effective_price"), ("order book", f"{ANAF}: OrderBook"),
                       ("map", f"{ANAF}: calc_liquidity_approx; {UI}: liquidity_approx")],
     BOOKSTATE, "ladder, order book and map versus trades executed on an equal book and the reference model")

# ------------------------------------------------------------------ honestly not applicable
prop("N01", "Closed-form curve mathematics is exact to floating point accuracy",
     "The conversions between the representations of a single liquidity curve (carbon A/B/y, uniswap v2/v3 ticks, k/x/y, marginal prices, "
     "impermanent loss) satisfy their textbook identities for all valid parameters.",
     ["inputs"], "all parameters of a single curve", "tests sample a few parameters",
     [CPCF, "carbon/tools/univ3calc.py", "carbon/helpers/floatint.py", "carbon/helpers/convertprice.py" if os.path.exists("/repo/carbon/helpers/convertprice.py") else CPCF],
     [("conversions", f"{CPCF}: from_xxx constructors; univ3calc")], [], "return values",
     na="pure functions of their arguments: no scheduling, time, I/O, failure or shared state can influence them, so simulation with fault injection "
        "has nothing to decide; what the stateful components do with them is covered by C32 to C34")
prop("N02", "Pair names and price quotations convert consistently",
     "Converting amounts and prices between the two quotations of a pair is self-inverse and consistent with the primary direction for all tokens.",
     ["inputs"], "all token pairs and numbers", "tests sample a few pairs",
     ["carbon/pair.py", "carbon/tools/simplepair.py"], [("conversions", "carbon/pair.py: CarbonPair; carbon/tools/simplepair.py: SimplePair")], [], "return values",
     na="immutable values and pure functions: nothing there depends on schedule, time, I/O or failures; their use in stateful operations is covered by "
        "C07, C11, C16 and C25")
prop("N03", "Charts and widgets show the data they are given",
     "Plots, tables and widgets of the notebooks display the simulation results, order books and curves without distortion.",
     ["inputs"], "all simulation results", "tests can not see a chart",
     ["carbon/helpers/widgets.py", "carbon/helpers/simulation.py"], [("display", "plot and widget functions")], [], "rendered output",
     na="the observable is a rendered picture or a browser widget; neither a display nor ipywidgets exists here and a simulator has no oracle for what a "
        "person sees; the data handed to the charts is covered by C11 and C18")
prop("N04", "The integer benchmark of the smart contracts reproduces on-chain arithmetic bit by bit",
     "The benchmark code computes encoded strategies and trades exactly as the deployed contracts do.",
     ["inputs"], "all encoded strategies", "needs the contracts as the oracle",
     ["benchmark"], [("arithmetic", "benchmark/core")], [], "encoded numbers",
     na="pure integer arithmetic whose oracle (the deployed contracts and a chain) is not in this sandbox; no schedule or fault reaches it")
