From b1ef9d7ade132effc132498f72f8b6fb8168c304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 01/61] fix: delete_order removes the linked order also when
 its id is 0

---
 carbon/simulators/carbon_simulator.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index eea72fa..7f4202c 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -581,21 +581,20 @@ class CarbonSimulatorUI:
 
         pair = order.pair
 
-        del self.orders[position_id]
-
-        if linked_position_id:
-            del self.orders[linked_position_id]
+        # remove both orders in one step, so that a strategy is never left half deleted
+        removed = (position_id, linked_position_id)
+        self.orders = {k: v for k, v in self.orders.items() if k not in removed}
 
         if self.verbose:
             str2 = (
                 f"and linked position {linked_position_id}"
-                if linked_position_id
+                if linked_position_id is not None
                 else ""
             )
             print(f"Deleted position {position_id} {str2}[{pair}]")
 
         return (
-            [position_id, linked_position_id] if linked_position_id else [position_id]
+            [position_id, linked_position_id] if linked_position_id is not None else [position_id]
         )
     delete_strategy = delete_order
 
-- 
2.43.0


From 4c52bee674fa2136c6bc3340c3298f99e8cf4305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 02/61] fix: add_strategy leaves no order behind when it fails

---
 carbon/simulators/carbon_simulator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index 7f4202c..50b18a1 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -485,6 +485,7 @@ class CarbonSimulatorUI:
         :y_int:         y_int >= amt is used as curve capacity, marginal price adapts
         """
         
+        id1 = id2 = None
         try:
 
             # validate tkn, pair and get CarbonPair object
@@ -553,8 +554,11 @@ class CarbonSimulatorUI:
 
 
 
-        except Exception as e:
-            if self.raiseonerror:
+        except BaseException as e:
+            # a strategy is entered with both its orders or not at all
+            self.orders.pop(id1, None)
+            self.orders.pop(id2, None)
+            if self.raiseonerror or not isinstance(e, Exception):
                 raise
             return {"success": False, "error": str(e), "exception": e}
         return {"success": True, "orders": orders, "orderuis": orderuis}
-- 
2.43.0


From 32250d8e343cb8a7477949d8e84e1f4953f539e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 03/61] fix: a trade that fails half way leaves balances and
 trade log untouched

---
 carbon/simulators/carbon_simulator.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index 50b18a1..d292f02 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -670,6 +670,11 @@ class CarbonSimulatorUI:
             #print(f"[_trade] limit_amt={limit_amt}, tkn={tkn}, match_by={match_by}, limit_price={limit_price}")
             #print(f"[_trade] limit_amt={limit_amt}, tkn={tkn}, rawprice={rawprice}, limit_price={limit_price}")
             
+        # what it takes to undo a trade that fails half way
+        trade_ids = []
+        balances = [(o, o.y, o.y_int) for o in self.orders.values()]
+        numtrades0 = self.numtrades
+
         try:
             decimals = self.decimals
             carbon_pair_r = carbon_pair.reverse
@@ -778,7 +783,6 @@ class CarbonSimulatorUI:
 
             # iterate through the routes
             ct = 0
-            trade_ids = []
             numtrades = self.numtrades
             for route in routes:
 
@@ -914,8 +918,14 @@ class CarbonSimulatorUI:
                 print(note, f" ({num_trades} routes)")
             self.numtrades += 1
 
-        except Exception as e:
-            if self.raiseonerror:
+        except BaseException as e:
+            # a trade happens completely or not at all
+            for o, y, y_int in balances:
+                o.y, o.y_int = y, y_int
+            for uid in trade_ids:
+                self.trades.pop(uid, None)
+            self.numtrades = numtrades0
+            if self.raiseonerror or not isinstance(e, Exception):
                 raise
             return {"success": False, "error": str(e), "exception": e}
         return {"success": True, "trades": trades, "is_by_target": is_by_target, "tkn_sold": tkn}
-- 
2.43.0


From 21581df629cb4dd087e34cc32add321ca67eb319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 04/61] fix: every alpha router has its own exact router

---
 carbon/routers/alpha_router.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/routers/alpha_router.py b/carbon/routers/alpha_router.py
index adc20fe..c138f85 100644
--- a/carbon/routers/alpha_router.py
+++ b/carbon/routers/alpha_router.py
@@ -16,7 +16,7 @@ class AlphaRouter(BaseRouter):
     """
 
     use_positions_matchlevel: List[int] = None
-    exact_router: ExactRouterX0Y0N = ExactRouterX0Y0N()
+    exact_router: ExactRouterX0Y0N = field(default_factory=ExactRouterX0Y0N)
 
     # returns an enumerated list with only values >= val
     def bigger_than(lst, val):
-- 
2.43.0


From 4d877f003f89024553705e821f579b7239dc20c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 05/61] fix: trades computed in any thread use the same decimal
 precision

---
 carbon/order.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/order.py b/carbon/order.py
index 56e2882..bc39205 100644
--- a/carbon/order.py
+++ b/carbon/order.py
@@ -10,7 +10,7 @@ __date__ = "25/Jan/2022"
 import pprint
 from dataclasses import dataclass
 from decimal import Decimal
-from decimal import getcontext
+from decimal import DefaultContext, getcontext
 from math import sqrt
 from typing import NewType
 
@@ -18,6 +18,7 @@ from .pair import CarbonPair
 
 
 getcontext().prec = 128
+DefaultContext.prec = 128       # the template for the contexts of other threads
 
 pp = pprint.PrettyPrinter(indent=4)
 
-- 
2.43.0


From 80cfb1019dd5fffb24f8a8921602edaf8ef9054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 06/61] fix: orders with a capacity below one unit trade on
 their own curve

---
 carbon/order.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/order.py b/carbon/order.py
index bc39205..5350edf 100644
--- a/carbon/order.py
+++ b/carbon/order.py
@@ -102,7 +102,7 @@ class Order:
     def x0(self) -> Decimal:
         n: Decimal = self.n
         p: Decimal = self.p
-        y_int: Decimal = max(self.y_int, Decimal("1"))
+        y_int: Decimal = self.y_int or Decimal("1")
         return (y_int * (1 - n)) / (p * (2 - n))
 
     @property
@@ -125,7 +125,7 @@ class Order:
 
     @property
     def y0(self) -> Decimal:
-        y_int: Decimal = max(self.y_int, Decimal("1"))
+        y_int: Decimal = self.y_int or Decimal("1")
         n: Decimal = self.n
         return (y_int * (1 - n)) / (2 - n)
 
-- 
2.43.0


From c42d7899a0787199bacc3d648f8d2739a9e9a896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 07/61] fix: use_positions also applies when a negative amount
 is given

---
 carbon/simulators/carbon_simulator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index d292f02..2866fcf 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -979,6 +979,7 @@ class CarbonSimulatorUI:
                     limit_price=limit_price,
                     limit_amt=limit_amt,
                     threshold_orders=threshold_orders,
+                    use_positions=use_positions,
                     support_partial=support_partial,
                 )
 
@@ -1058,6 +1059,7 @@ class CarbonSimulatorUI:
                     limit_price=limit_price,
                     limit_amt=limit_amt,
                     threshold_orders=threshold_orders,
+                    use_positions=use_positions,
                     support_partial=support_partial,
                 )
 
-- 
2.43.0


From 5aa0f28b10bf41de89cb46df558cd671e6f55438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 08/61] fix: pairs whose concatenated names coincide do not
 trade against each other

---
 carbon/simulators/carbon_simulator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index 2866fcf..caaeb0c 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -691,6 +691,7 @@ class CarbonSimulatorUI:
                 if self.orders[k].pair_name
                    in [carbon_pair.pair_iso, carbon_pair_r.pair_iso]
                    and self.orders[k].tkn == tkn
+                   and self.orders[k].pair.other(tkn) == carbon_pair.other(tkn)
                    and not self.orders[k].disabled
                 if self.orders[k].y > 0
             ]
-- 
2.43.0


From 67b165959a22757a6bb000d49c8d5b6951210010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 09/61] fix: the fast router refuses trades beyond the
 available liquidity

---
 carbon/routers/fast_router.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/carbon/routers/fast_router.py b/carbon/routers/fast_router.py
index 87b0d4b..5aaf32f 100644
--- a/carbon/routers/fast_router.py
+++ b/carbon/routers/fast_router.py
@@ -192,6 +192,7 @@ class FastRouter(BaseRouter):
                             output=quote.rate.output,
                         )
                     )
+                    x = 0
                     break
             else:
                 if self._filter(quote.rate, is_by_target):
@@ -200,8 +201,14 @@ class FastRouter(BaseRouter):
                             index=quote.index, input=x, output=trade(x, quote.index).output
                         )
                     )
+                    x = 0
                     break
 
+        if not support_partial:
+            assert (
+                self.frmt(x) <= 0
+            ), "Insufficient liquidity across all user positions to support this trade."
+
         # Format the output
         match_method = "by_src" if not is_by_target else "by_target"
         actions[0].total_output = actions[0].output
@@ -238,6 +245,7 @@ class FastRouter(BaseRouter):
             is_by_target=is_by_target,
             completed_trade=False,
             check_sufficient_liquidity=check_sufficient_liquidity,
+            support_partial=support_partial,
         )
 
     def match_by_target(
@@ -255,6 +263,7 @@ class FastRouter(BaseRouter):
             is_by_target=is_by_target,
             completed_trade=False,
             check_sufficient_liquidity=check_sufficient_liquidity,
+            support_partial=support_partial,
         )
 
     def __post_init__(self):
-- 
2.43.0


From d5de9ffe5276b44354a42d5ebe45e42e6d6a8930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 10/61] fix: limits are checked against the right price in fast
 by-target trades

---
 carbon/simulators/carbon_simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index caaeb0c..4cc2e7f 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -767,8 +767,10 @@ class CarbonSimulatorUI:
 
             if limit_price is not None:
                 print(f"[_trade] limit_price={limit_price}, price_avg={price_avg}")
+                # the fast router exchanges input and output when matching by target
+                price_lim = 1 / price_avg if is_by_target and isinstance(self.matcher, FastRouter) else price_avg
                 limitfail = not carbon_pair.limit_is_met(
-                    tkn, limit_price, carbon_pair.BUY, round(float(price_avg), decimals)
+                    tkn, limit_price, carbon_pair.BUY, round(float(price_lim), decimals)
                 )
                 if limitfail:
                     execute = False
-- 
2.43.0


From bb9bdc6abbee8cf95490127ccbd6262a761e08b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 11/61] fix: a trade reported as failed because its result
 cannot be built is undone

---
 carbon/simulators/carbon_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index 4cc2e7f..2c53208 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -920,6 +920,7 @@ class CarbonSimulatorUI:
             if self.verbose:
                 print(note, f" ({num_trades} routes)")
             self.numtrades += 1
+            return {"success": True, "trades": trades, "is_by_target": is_by_target, "tkn_sold": tkn}
 
         except BaseException as e:
             # a trade happens completely or not at all
@@ -931,7 +932,6 @@ class CarbonSimulatorUI:
             if self.raiseonerror or not isinstance(e, Exception):
                 raise
             return {"success": False, "error": str(e), "exception": e}
-        return {"success": True, "trades": trades, "is_by_target": is_by_target, "tkn_sold": tkn}
 
     def amm_buys(
             self,
-- 
2.43.0


From 0983d7a2c2df84473a71a142766771163697d6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 12/61] fix: strategies with a negative balance are refused

---
 carbon/simulators/carbon_simulator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index 2c53208..86e5ac8 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -222,6 +222,9 @@ class CarbonSimulatorUI:
         if amt is None:
             amt = 0
 
+        if amt < 0:
+            raise ValueError("Must have amt >= 0", amt)
+
         if not y_int is None and not p_marginal is None:
             raise ValueError("Not both y_int and p_marginal can be specificed", y_int, p_marginal)
 
-- 
2.43.0


From be1e2907c4fc84114fe721403994493411937e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:53 +0000
Subject: [PATCH 13/61] fix: a partial fill of next to nothing keeps the
 direction of the trade

---
 carbon/routers/alpha_router.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/carbon/routers/alpha_router.py b/carbon/routers/alpha_router.py
index c138f85..6e4f03b 100644
--- a/carbon/routers/alpha_router.py
+++ b/carbon/routers/alpha_router.py
@@ -255,6 +255,10 @@ class AlphaRouter(BaseRouter):
         # print(f'is_by_target {is_by_target}') # True
         # print(tabulate(results,headers=list(results.columns)))
         if support_partial & (results.ordered_associated_liquidity.sum() < abs(x)):
+            # keep the direction of the trade
+            assert (
+                results.ordered_associated_liquidity.sum() > Decimal('0.0000000001')
+            ), "Insufficient liquidity across all user positions to support this trade."
             if x < 0:
                 x = -results.ordered_associated_liquidity.sum() + Decimal('0.0000000001')
             else:
@@ -383,6 +387,10 @@ class AlphaRouter(BaseRouter):
         # print(f'is_by_target {is_by_target}') #False
         # print(tabulate(results,headers=list(results.columns)))
         if support_partial & (results.available_value.sum() < abs(x)):
+            # keep the direction of the trade
+            assert (
+                results.available_value.sum() > Decimal('0.0000000001')
+            ), "Insufficient liquidity across all user positions to support this trade."
             if x < 0:
                 x = -results.available_value.sum() + Decimal('0.0000000001')
             else:
-- 
2.43.0


From b2d31e2128f905347a02814c268acedc3ba0660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 14/61] fix: SDK calls read the reply of the end point they
 called when sync is left to the default

---
 carbon/sdk/sdkbase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carbon/sdk/sdkbase.py b/carbon/sdk/sdkbase.py
index 6818cf3..7158fda 100644
--- a/carbon/sdk/sdkbase.py
+++ b/carbon/sdk/sdkbase.py
@@ -139,6 +139,7 @@ class SDKBase:
         :sync:      whether to call sync or async
         """
         #print("\n\n[call]", ep, params, method, sync)
+        if sync is None: sync = self.syncdefault
         url = self.join(self.callapi0(sync), ep)
         if sync: 
             #print("\n\n[call] calling req", ep, params, method, sync)
-- 
2.43.0


From f96e2ac9d45b9d5c659ecf3f39b158710e9d6cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 15/61] fix: SDK requests go to the url given to the
 constructor

---
 carbon/sdk/sdkbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/sdk/sdkbase.py b/carbon/sdk/sdkbase.py
index 7158fda..a972c46 100644
--- a/carbon/sdk/sdkbase.py
+++ b/carbon/sdk/sdkbase.py
@@ -99,7 +99,7 @@ class SDKBase:
         if method == self.GET and params:
             raise self.CarbonSDKValueError("Must not provide params for GET request", params, method)
 
-        url = self.join(self.URL, path)
+        url = self.join(self.url, path)
         if self.verbose:
             print(f"[req0] method={method}, url={url}, params={params}")
         if method == self.GET:
-- 
2.43.0


From e1757daec95d1a2a342deb26a2f5f9be667f53e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 16/61] fix: signsubmittx tells the server whether to sign

---
 carbon/sdk/carbonsdk0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/sdk/carbonsdk0.py b/carbon/sdk/carbonsdk0.py
index 049a3e9..5e33c8a 100644
--- a/carbon/sdk/carbonsdk0.py
+++ b/carbon/sdk/carbonsdk0.py
@@ -575,7 +575,7 @@ class CarbonSDK0(SDKBase):
         :sign:      whether to sign the transaction (True=sign)
         :returns:   the transaction receipt
         """
-        r = self.req(n("signsubmittx"), params={"tx": tx, sign: bool(sign)})
+        r = self.req(n("signsubmittx"), params={"tx": tx, "sign": bool(sign)})
         return self._checkresult(r)
     
     ########################################
-- 
2.43.0


From c6ce1beabe23e8587dc3b42b6bcaf61d5be9219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 17/61] fix: asynchronous SDK calls wait for all parts of a
 multi-part result

---
 resources/sdk/server/sdkserver.mjs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/sdk/server/sdkserver.mjs b/resources/sdk/server/sdkserver.mjs
index cd97363..0e01c11 100644
--- a/resources/sdk/server/sdkserver.mjs
+++ b/resources/sdk/server/sdkserver.mjs
@@ -96,7 +96,7 @@ app.post('/api/ascall/:func', async (req, res) => {
   }
   res.send(retval)
   try {
-    result = await result
+    result = Array.isArray(result) ? await Promise.all(result) : await result
     resultsas[reqid] = {reqid: reqid, result: result}
     if (success){
       console.log(`[api/ascall/${func}:${reqid}] result=${result.result}`)  
-- 
2.43.0


From 939a252263817e7bb1684a0424f997488c01a36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:35 +0000
Subject: [PATCH 18/61] fix: asynchronous SDK calls never share a request id

---
 resources/sdk/server/sdkserver.mjs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resources/sdk/server/sdkserver.mjs b/resources/sdk/server/sdkserver.mjs
index 0e01c11..e27084b 100644
--- a/resources/sdk/server/sdkserver.mjs
+++ b/resources/sdk/server/sdkserver.mjs
@@ -13,6 +13,7 @@ http connection to it.
 import express from 'express';
 import bodyParser from 'body-parser';
 import { ethers } from 'ethers';
+import { randomUUID } from 'crypto';
 import { dispatch, initialize, signsubmittx, wallet, provider, signer } from "./sdkserver_dispatch.mjs";
 
 const app = express()
@@ -83,7 +84,7 @@ app.post('/api/ascall/:func', async (req, res) => {
   }
   const func = req.params.func
   const body = req.body
-  const reqid = Date.now()
+  const reqid = randomUUID()
   var retval, result
 
   console.log(`[api/ascall/${func}:${reqid}] starting async dispatch`)
-- 
2.43.0


From 18ab85741107a998cb8f1dbf22328aea52c9e63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:35 +0000
Subject: [PATCH 19/61] fix: a failing erc20 call is answered once and does not
 end the SDK server

---
 resources/sdk/server/sdkserver.mjs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/resources/sdk/server/sdkserver.mjs b/resources/sdk/server/sdkserver.mjs
index e27084b..15317d5 100644
--- a/resources/sdk/server/sdkserver.mjs
+++ b/resources/sdk/server/sdkserver.mjs
@@ -175,8 +175,8 @@ app.post('/api/erc20/:func', async (req, res) => {
     'function decimals() view returns (uint8)',
     'function symbol() public view returns (string)',
   ];
+  var result = []
   try {
-    var result = []
     for (var i=0; i<p.tokens.length; i++){
       
       console.log(`[api/erc20/${func}] ${p.tokens[i]}`)
@@ -205,7 +205,7 @@ app.post('/api/erc20/:func', async (req, res) => {
     
         case "approve":
           var txReceipt = contract.approve(p.to, p.amount)
-          //res.send({success: true, data: txReceipt})
+          result.push(txReceipt);
           break;
     
         // case "allowance":
@@ -226,11 +226,13 @@ app.post('/api/erc20/:func', async (req, res) => {
           break;
       }
     }
-  
+    result = await Promise.all(result)
   } catch (e) {
+    Promise.allSettled(result) // calls already under way may fail as well
     res.send({success: false, error: e.message})
+    return;
   }
-  res.send({success: true, data: await Promise.all(result)})
+  res.send({success: true, data: result})
 })
 
 
-- 
2.43.0


From 278d132264c03fc8adf7471bdb03408d51745c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 20/61] fix: mCreateStrategy creates the strategy on the pair
 it is given

---
 carbon/sdk/carbonsdk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index 65f53a6..4c83183 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -693,8 +693,8 @@ class CarbonSDK(CarbonSDK0):
             raise ValueError("sellRangeStart <= buyRangeStart", sellRangeStart, buyRangeStart)
         
         data = self.createBuySellStrategy(
-            baseToken = T.ETH.a, 
-            quoteToken = T.USDC.a, 
+            baseToken = T[pair.tknb].a, 
+            quoteToken = T[pair.tknq].a, 
             buyPriceLow = buyRangeEnd, 
             buyPriceHigh = buyRangeStart, 
             buyBudget = buyAmountTknQ,
-- 
2.43.0


From f37df3dcb8aad695b9476af16d4a6188a150101d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 21/61] fix: dry runs, refused and failing trades leave a curve
 and its linked curve unchanged

---
 carbon/carbon_order_ui.py | 47 ++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index 4ce0add..f465b47 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -23,6 +23,7 @@ try:
 except:
     from pair import CarbonPair
 
+from copy import copy
 from dataclasses import dataclass
 from math import sqrt, floor, log10
 from collections import namedtuple
@@ -957,6 +958,32 @@ class CarbonOrderUI:
             dy = 0
             execute = False
 
+        if not execute:
+            # a dry run trades on copies
+            curve = copy(self)
+            if self.linked: curve.linked = copy(self.linked)
+            return curve._selly(dy, execute, expandcurve, raiseonerror)
+
+        linked = self.linked
+        state = (self.y, self.yint)
+        state_linked = (linked.y, linked.yint) if linked else None
+        try:
+            return self._selly(dy, execute, expandcurve, raiseonerror)
+        except BaseException:
+            # a trade that fails half way leaves both curves as they were
+            self.y, self.yint = state
+            if linked: linked.y, linked.yint = state_linked
+            raise
+
+    def _selly(self, dy, execute, expandcurve, raiseonerror):
+        """
+        the actual trade of selly; always updates the curve and its linked curve
+        """
+        if dy < 0 and self.linked:
+            if raiseonerror:
+                raise ValueError("Can't buy y on a curve that is linked, as x would have to come from the linked curve", dy)
+            return None
+
         yold = self.y
         pold = self.p_marg
         ynew = self.y - dy
@@ -975,8 +1002,7 @@ class CarbonOrderUI:
             else:
                 yintold = self.yint
                 yint = ynew
-                if execute:
-                    self.yint = ynew
+                self.yint = ynew
                 curve_expanded = True
         else:
             curve_expanded = False
@@ -984,8 +1010,7 @@ class CarbonOrderUI:
             if ynew<0: ynew = 0  # see if ynew < -self.EPSILON
 
         dx = self.dxfromdy_f(dy, checkbounds=False, raiseonerror=True)
-        if execute:
-            self.y = ynew
+        self.y = ynew
 
         if self.linked:
             result_linked = self.linked.addliqy(dx)
@@ -1041,16 +1066,19 @@ class CarbonOrderUI:
         :execute:       if False, only display results, but do not update the object
         :returns:       a dict containing extensive information about the tx
         """
+        curve = self
         if self.yint == 0:
-            self.yint = 1e-50 # selly fails on a fully empty curve, even with dy=0
+            # selly fails on a fully empty curve, even with dy=0
+            curve = copy(self)
+            curve.yint = 1e-50
         try:
-            dy = self.dyfromp_f(p_marg, checkbounds=True, raiseonerror=True)
+            dy = curve.dyfromp_f(p_marg, checkbounds=True, raiseonerror=True)
         except (self.PriceOutOfBoundsErrorBeyondStart, 
                 self.PriceOutOfBoundsErrorBeyondMarg):
             dy = 0
         except self.PriceOutOfBoundsErrorBeyondEnd:
-            dy = self.dyfromp_f(self.p_end, checkbounds=False, raiseonerror=False)
-        result = self.selly(dy, execute, allowneg=False, expandcurve=False, raiseonerror=True)
+            dy = curve.dyfromp_f(self.p_end, checkbounds=False, raiseonerror=False)
+        result = curve.selly(dy, execute, allowneg=False, expandcurve=False, raiseonerror=True)
         if result is None:
             raise RuntimeError(f"Unexpected None value at {p_marg}", dy, self.yint, self.y, self.p_marg, p_marg, self)
         result["action"] = "byprice[tradeto]"
@@ -1082,10 +1110,9 @@ class CarbonOrderUI:
         if newy > self.yint:
             if not expandcurve:
                 raise ValueError("Must expand curve and expandcurve=False", self.y, dy, newy, self.yint)
-            self.yint = newy
             result["yint"] = newy
             result["expanded"] = True
-        self.y = newy
+        self.y, self.yint = newy, result["yint"]
         result["pmarg"] = self.p_marg
         return result
         
-- 
2.43.0


From 6507399e4f3f2d018a46d7aba7261744ac87e588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 22/61] fix: buyx returns None when the trade is refused

---
 carbon/carbon_order_ui.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index f465b47..2e06f18 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -1055,6 +1055,7 @@ class CarbonOrderUI:
         """
         dy = self.dyfromdx_f(dx, checkbounds=False, raiseonerror=True)
         result = self.selly(dy, execute, allowneg, expandcurve, raiseonerror)
+        if result is None: return None
         result["action"] = "bytarget[buyx]"
         return result
 
-- 
2.43.0


From e883d05c5c7f6c420a1b161ebdf62170a6a541c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 23/61] fix: constant price curves can be traded to a price

---
 carbon/carbon_order_ui.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index 2e06f18..fa8f2bb 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -623,7 +623,11 @@ class CarbonOrderUI:
                 if raiseonerror:
                     raise self.PriceOutOfBoundsErrorBeyondEnd("Price out of bounds (beyond end)", p, self.pb)
                 return 0
-        y = self.yint * (sqrt(dydx) - self.B) / self.S
+        if self.S == 0:
+            # constant price: all liquidity is traded at pb, ie none at or above and all below it
+            y = self.y if dydx >= self.pb_raw else 0
+        else:
+            y = self.yint * (sqrt(dydx) - self.B) / self.S
         if checkbounds:
             if y > self.y:
                 if raiseonerror:
@@ -1078,7 +1082,7 @@ class CarbonOrderUI:
                 self.PriceOutOfBoundsErrorBeyondMarg):
             dy = 0
         except self.PriceOutOfBoundsErrorBeyondEnd:
-            dy = curve.dyfromp_f(self.p_end, checkbounds=False, raiseonerror=False)
+            dy = curve.y
         result = curve.selly(dy, execute, allowneg=False, expandcurve=False, raiseonerror=True)
         if result is None:
             raise RuntimeError(f"Unexpected None value at {p_marg}", dy, self.yint, self.y, self.p_marg, p_marg, self)
-- 
2.43.0


From ca460b674f10dd98fcdd831950cca5bb6563b9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 24/61] fix: strategies with zero risk asset are seeded with
 MIN_SEED_AMT as documented

---
 carbon/helpers/strategym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/strategym.py b/carbon/helpers/strategym.py
index 6d466ad..8fd9c44 100644
--- a/carbon/helpers/strategym.py
+++ b/carbon/helpers/strategym.py
@@ -134,7 +134,7 @@ class strategy():
     def __post_init__(self):
         # the ==0 is important: do not touch None!
         # (None means: to be filled in later)
-        if self.amt_rsk == 0: self.amt_risk = self.MIN_SEED_AMT
+        if self.amt_rsk == 0: self.amt_rsk = self.MIN_SEED_AMT
         if self.amt_csh == 0: self.amt_csh  = self.MIN_SEED_AMT
         if self.rsk is None: self.rsk = "RSK"
         if self.csh is None: self.csh = "CSH"
-- 
2.43.0


From 288c7430ab32a3d2226ab436ee9fe4e1fb162d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 25/61] fix: a strategy with both marginal prices and curve
 capacities is refused again

---
 carbon/helpers/strategym.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/carbon/helpers/strategym.py b/carbon/helpers/strategym.py
index 8fd9c44..34ed121 100644
--- a/carbon/helpers/strategym.py
+++ b/carbon/helpers/strategym.py
@@ -62,7 +62,14 @@ class strategy():
         yi_provided = not self.y_int_sell is None or not self.y_int_buy is None
         if pm_provided and yi_provided:
             raise ValueError("Not both p_marginal and y_int can be provided", self.psell_marginal, self.y_int_sell, self.pbuy_marginal, self.y_int_buy)
-        
+
+        # the ==0 is important: do not touch None!
+        # (None means: to be filled in later)
+        if self.amt_rsk == 0: self.amt_rsk = self.MIN_SEED_AMT
+        if self.amt_csh == 0: self.amt_csh  = self.MIN_SEED_AMT
+        if self.rsk is None: self.rsk = "RSK"
+        if self.csh is None: self.csh = "CSH"
+
     MIN_SEED_AMT = 1e-10
 
     def rescale_strat(self, newspot=100, oldspot=100, force=False):
@@ -131,14 +138,6 @@ class strategy():
             pass
         return newobj
 
-    def __post_init__(self):
-        # the ==0 is important: do not touch None!
-        # (None means: to be filled in later)
-        if self.amt_rsk == 0: self.amt_rsk = self.MIN_SEED_AMT
-        if self.amt_csh == 0: self.amt_csh  = self.MIN_SEED_AMT
-        if self.rsk is None: self.rsk = "RSK"
-        if self.csh is None: self.csh = "CSH"
-
     @classmethod
     def from_dct(cls, dct, raiseonerror=True):
         """
-- 
2.43.0


From b43f9e2849f5c75fc32cdac7850e349c761d405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 26/61] fix: interpolation keeps observations closer together
 than the sampling period

---
 carbon/helpers/pathinterpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/pathinterpolation.py b/carbon/helpers/pathinterpolation.py
index f884c84..2a8580c 100644
--- a/carbon/helpers/pathinterpolation.py
+++ b/carbon/helpers/pathinterpolation.py
@@ -87,7 +87,7 @@ class PathInterpolation():
         path_td_yrs = path_td/_pd.Timedelta(days=1)/365.25
         if period > path_td:
             print("[interpolate_segment] sample period too large; returning original")
-            return path_segment.iloc[:1]
+            return path_segment
         numsegments = int(round(path_td/period,0))
         period_act = path_td/numsegments
         sample_path_np = cls.gaussian_bridge(path_segment[0], path_segment[1], sig*_sqrt(path_td_yrs), numsegments)
-- 
2.43.0


From fd9777f6f9c018feb8682a83a6d41a8ce6991455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 27/61] fix: path columns use the generator's own column name
 and its parameters unshortened

---
 carbon/helpers/pathgenerator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/helpers/pathgenerator.py b/carbon/helpers/pathgenerator.py
index 5575ec6..9a66d47 100644
--- a/carbon/helpers/pathgenerator.py
+++ b/carbon/helpers/pathgenerator.py
@@ -125,15 +125,15 @@ class PathGenerator():
         """
         
         if numpaths is None: numpaths = self.DEFAULTS["numpaths"]
-        if colname is None: colname = self.DEFAULTS["colname"]
+        if colname is None: colname = self.colname
         
         paths = [self.path() for _ in range(numpaths)]
         #df0 = pd.DataFrame(data=self.vec2ar([self.times, self.datetimes]), columns=["time", "datetime"])
         df0 = pd.DataFrame(data=self.vec2ar([self.datetimes]), columns=["datetime"])
         cols = [
             colname.format(
-                sig100 = int(self.sig*100),
-                mu100  = int(self.mu*100),   
+                sig100 = round(self.sig*100),
+                mu100  = round(self.mu*100),   
                 ix     = ix
                 ) 
             for ix in range(len(paths))
-- 
2.43.0


From aaeaccbfc03bd288dd24644da419029ad8d79a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 28/61] fix: failed CryptoCompare queries raise or return None
 as configured

---
 carbon/helpers/cryptocompare.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index 51467b2..17c02e0 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -117,7 +117,12 @@ class CryptoCompare():
             paramsq["api_key"] = self.apikey
         
         if method == self.QUERY_GET:
-            r = _requests.get(url, params=paramsq)
+            try:
+                r = _requests.get(url, params=paramsq)
+            except _requests.RequestException:
+                if self.raiseonerror:
+                    raise
+                return None
         elif method == self.QUERY_POST:
             raise ValueError("Method QUERY_POST has not been implemented yet.")
         else:
@@ -125,7 +130,7 @@ class CryptoCompare():
         
         if not r:
             if self.raiseonerror:
-                raise RuntimeError(f"API query not successfull (status={r.status})", r)
+                raise RuntimeError(f"API query not successfull (status={r.status_code})", r)
             else:
                 return None
         return r
-- 
2.43.0


From 859e8d9f3fa11f27d38fb3634d2df18d1e6f8097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 29/61] fix: errors reported by the CryptoCompare API are not
 returned as data

---
 carbon/helpers/cryptocompare.py | 35 +++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index 17c02e0..baab996 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -135,6 +135,17 @@ class CryptoCompare():
                 return None
         return r
     
+    def _json(self, r, *context):
+        """
+        the json content of the response `r`, with API-level errors treated like any other error
+        """
+        r_json = r.json()
+        if r_json.get("Response") == "Error":
+            if self.raiseonerror:
+                raise RuntimeError("Query not successfull", r, r_json, *context)
+            return None
+        return r_json
+
     def query_allexchanges(self):
         """
         endpoint = /data/v4/all/exchanges
@@ -145,7 +156,9 @@ class CryptoCompare():
             endpoint="/data/v4/all/exchanges"
         )
         if r is None: return r
-        return r.json().get("Data")
+        r_json = self._json(r)
+        if r_json is None: return None
+        return r_json.get("Data")
 
     
     def _cache_xxx(self, item, updatemethod, readonfail=True, updateonfail=False):
@@ -194,7 +207,9 @@ class CryptoCompare():
             endpoint="/stats/rate/limit"
         )
         if r is None: return r
-        return r.json().get("Data")
+        r_json = self._json(r)
+        if r_json is None: return None
+        return r_json.get("Data")
         
     def query_coinlist(self):
         """
@@ -206,7 +221,9 @@ class CryptoCompare():
             endpoint="/data/all/coinlist"
         )
         if r is None: return r
-        return r.json().get("Data")
+        r_json = self._json(r)
+        if r_json is None: return None
+        return r_json.get("Data")
     
     def cache_coinlist(self, readonfail=True, updateonfail=False):
         """cached access to query_coinlist"""
@@ -225,7 +242,9 @@ class CryptoCompare():
             endpoint="/data/index/list"
         )
         if r is None: return r
-        return r.json().get("Data")
+        r_json = self._json(r)
+        if r_json is None: return None
+        return r_json.get("Data")
     
     def cache_indexlist(self, readonfail=True, updateonfail=False):
         """cached access to query_indexlist"""
@@ -285,12 +304,8 @@ class CryptoCompare():
         }
         r = self.query(endpoint=endpoint, params=params)
         if r is None: return r
-        r_json = r.json()
-        if r_json.get("Response") == "Error":
-            if self.raiseonerror:
-                raise RuntimeError("Query not successfull", r, r_json, endpoint, params)
-            else:
-                return None
+        r_json = self._json(r, endpoint, params)
+        if r_json is None: return None
         if not aspandas:
             return r_json().get("Data")
         try:   
-- 
2.43.0


From 3d0e85a4133570d6a525e1a7a92b469b5ff3f0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 30/61] fix: query_freqlypair accepts aspandas=False and
 timestamps as documented

---
 carbon/helpers/cryptocompare.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index baab996..d30d396 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -300,14 +300,14 @@ class CryptoCompare():
                 "tsym":     tsym if not tsym is None else self.DEFAULT_TSYM,
                 "e":        e,
                 "limit":    limit if not limit is False else self.DEFAULT_LIMIT,
-                "toTs":     toTs,
+                "toTs":     toTs if toTs is None or isinstance(toTs, (int, float)) else self.ts_tocc(toTs),
         }
         r = self.query(endpoint=endpoint, params=params)
         if r is None: return r
         r_json = self._json(r, endpoint, params)
         if r_json is None: return None
         if not aspandas:
-            return r_json().get("Data")
+            return r_json.get("Data")
         try:   
             # print("[query_freqlypair]", endpoint, params, r)
             # print("[query_freqlypair] r", r_json())
-- 
2.43.0


From b638b0d45aa5c003d88ec35ad15f999c3745f4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 31/61] fix: aggr_query passes its arguments on, keeps the
 order of the pairs and is complete or fails

---
 carbon/helpers/cryptocompare.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index d30d396..a8a32b7 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -452,9 +452,11 @@ class CryptoCompare():
             
         print("[aggr_query] Querying for raw table", len(pairs))
         raw_tables = {
-            (fsym, tsym): self.query_freqlypair(freq, fsym=fsym, tsym=tsym)
+            (fsym, tsym): self.query_freqlypair(freq, fsym=fsym, tsym=tsym, **kwargs)
             for fsym, tsym in pairs
         }
+        if any(v is None for v in raw_tables.values()):
+            return None
         df_raw = _pd.concat(raw_tables, axis=1)
         result_raw = {self.pair_from_pt(p):v for p, v in raw_tables.items()}
         if incl_raw:
@@ -480,9 +482,9 @@ class CryptoCompare():
         :returns:   dict pairs: tuple( (tknp1, tnkq1), ...), fields: (field1, ...)
         """
         pairs  = ((tknb, tknq) for tknb, tknq, field in df.columns)
-        pairs  = tuple(set(pairs))
+        pairs  = tuple(dict.fromkeys(pairs))
         fields = (field for tknb, tknq, field in df.columns)
-        fields = tuple(set(fields))
+        fields = tuple(dict.fromkeys(fields))
         return {"pairs": pairs, "fields": fields}
 
     FIELD_CLOSE = "close"
-- 
2.43.0


From b84ab7af3131eeb7216a62c4f13e1b8d91e83b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 32/61] fix: cached CryptoCompare queries honour readonfail,
 updateonfail and raiseonerror

---
 carbon/helpers/cryptocompare.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index a8a32b7..f43912d 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -68,13 +68,17 @@ class CryptoCompare():
         """returns the full data file name, including path"""
         return _os.path.join(self.DATAPATH, fn)
 
+    def _cache_load(self, item):
+        """reads a data item from the data cache, always raises on failure"""
+        with open(self.datafn(f"{item}.pickle"), "rb") as f:
+            return _pickle.load(f)
+
     def cache(self, item):
         """
         reads a data item from the data cache
         """
         try:
-            with open(self.datafn(f"{item}.pickle"), "rb") as f:
-                result = _pickle.load(f)
+            result = self._cache_load(item)
         except:
             if not self.raiseonerror:
                 return None
@@ -174,13 +178,13 @@ class CryptoCompare():
         if updateonfail:
             readonfail = True
         try:
-            return self.cache(item)
+            return self._cache_load(item)
         except:
             print(f"[_cache_xxx] cache miss for item {item}")
             if readonfail:
                 print(f"[_cache_xxx] reading {item} from API")
                 data = updatemethod()
-                if updateonfail:
+                if updateonfail and not data is None:
                     print(f"[_cache_xxx] updating cache for {item} from API")
                     self.write_cache(item, data)
                 return data
@@ -194,7 +198,9 @@ class CryptoCompare():
         """cached access to query_allexchanges"""
         return self._cache_xxx(
             item="query_allexchanges", 
-            updatemethod=self.query_allexchanges
+            updatemethod=self.query_allexchanges,
+            readonfail=readonfail,
+            updateonfail=updateonfail,
         )
     
     def query_ratelimit(self):
@@ -229,7 +235,9 @@ class CryptoCompare():
         """cached access to query_coinlist"""
         return self._cache_xxx(
             item="query_coinlist", 
-            updatemethod=self.query_coinlist
+            updatemethod=self.query_coinlist,
+            readonfail=readonfail,
+            updateonfail=updateonfail,
         )
         
     def query_indexlist(self):
@@ -250,7 +258,9 @@ class CryptoCompare():
         """cached access to query_indexlist"""
         return self._cache_xxx(
             item="query_indexlist", 
-            updatemethod=self.query_indexlist
+            updatemethod=self.query_indexlist,
+            readonfail=readonfail,
+            updateonfail=updateonfail,
         )
     
     @staticmethod
-- 
2.43.0


From 81b6cca495911e0e3908259c8fb7ed1ce776eef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 33/61] fix: Edge.transport checks before it records, so that a
 refused amount leaves no trace

---
 carbon/tools/arbgraphs.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 7bab36f..68f2ca9 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -602,15 +602,15 @@ class Edge(_DCBase):
         amount_out = amount_in * self.amount_out / self.amount_in
         
         if record:
-            self.state.amount_in_remaining -= amount_in
-            if self.state.amount_in_remaining < -EPS:
-                if raiseonerror:
+            # check everything before changing the state, so that a refused amount leaves no trace
+            if raiseonerror:
+                if self.state.amount_in_remaining - amount_in < -EPS:
                     raise ValueError(f"amount {amount_in} exceeds remaining edge capacity {self.state.amount_in_remaining}")
+                if self.node_in.state.amount - amount_in < -EPS:
+                    raise ValueError(f"amount {amount_in} exceeds node capacity {self.node_in.state.amount}")
+            self.state.amount_in_remaining -= amount_in
             self.node_out.state.amount += amount_out
             self.node_in.state.amount -= amount_in
-            if self.node_in.state.amount < -EPS:
-                if raiseonerror:
-                    raise ValueError(f"amount {amount_in} exceeds node capacity {self.node_in.state.amount}")
         return Amount(amount_out, self.node_out)
 
     def __str__(self):
-- 
2.43.0


From 7c6bd93d9d1e27ab577ea683dbc5ae9b03cf9b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 34/61] fix: ArbGraph.transport records on all edges or on none

---
 carbon/tools/arbgraphs.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 68f2ca9..158d6c6 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1728,10 +1728,19 @@ class ArbGraph(_DCBase):
         amounts_in = [amt_in * routing_factor for amt_in in capacities_in]
         print(f"routing_factor: {routing_factor}; amounts_in: {amounts_in} {amount_in} {capacity_in}")
 
-        # transport the amounts through the edges
+        # transport the amounts through the edges; either all of them or none
         amounts_out = []
-        for edge, amt_in in zip(edges, amounts_in):
-            amounts_out += [edge.transport(amt_in, record=record, raiseonerror=raiseonerror)]
+        node_states = [(n.state.amount_, n.state.amount, len(n.state.amount_.history)) for n in (node_in, node_out)]
+        try:
+            for edge, amt_in in zip(edges, amounts_in):
+                amounts_out += [edge.transport(amt_in, record=record, raiseonerror=raiseonerror)]
+        except BaseException:
+            for edge, capacity in zip(edges, capacities_in):
+                edge.state.amount_in_remaining = capacity
+            for tracked, value, nhistory in node_states:
+                tracked.value = value
+                del tracked.history[nhistory:]
+            raise
 
         return self.TransportResult(
             amount_in = Amount(amount_in, node_in.tkn),
-- 
2.43.0


From 0d6e1922c4473ac30d82f5000b4e6b438d92212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 35/61] fix: ArbGraph.transport accepts Amounts and refuses
 exhausted edges with ValueError

---
 carbon/tools/arbgraphs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 158d6c6..652fffb 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1709,8 +1709,8 @@ class ArbGraph(_DCBase):
 
         # if amount_in is a Amount, ensure the token is correct
         if isinstance(amount_in, Amount):
-            if amount_in.token != node_in.token:
-                raise ValueError(f"amount_in token {amount_in.token} does not match node_in token {node_in.token}")
+            if not (amount_in.tkn is node_in or amount_in.tkn == node_in.tkn):
+                raise ValueError(f"amount_in token {amount_in.tkn} does not match node_in token {node_in.tkn}")
             amount_in = amount_in.amount
 
         # get the edges
@@ -1724,7 +1724,9 @@ class ArbGraph(_DCBase):
 
         # execute the routing algo
         assert routingalgo == self.TPROUT_PRORATA, f"routingalgo {routingalgo} not supported; use TPROUT_PRORATA"
-        routing_factor = amount_in / capacity_in
+        if capacity_in == 0 and amount_in != 0:
+            raise ValueError(f"amount {amount_in} exceeds remaining edge capacity {capacity_in}")
+        routing_factor = amount_in / capacity_in if amount_in != 0 else 0
         amounts_in = [amt_in * routing_factor for amt_in in capacities_in]
         print(f"routing_factor: {routing_factor}; amounts_in: {amounts_in} {amount_in} {capacity_in}")
 
-- 
2.43.0


From 41f1973cb5f0bf035483ecf800c95eda869e7e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 36/61] fix: a duplicated ArbGraph keeps edge index, price
 convention and can be extended

---
 carbon/tools/arbgraphs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 652fffb..2816b5f 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -911,7 +911,7 @@ class ArbGraph(_DCBase):
         nodes = {node.tkn: Node(node.tkn) for node in self.nodes}
         if not consolidate:
             edges = (Edge(edge.node_in, edge.amount_in, edge.node_out, edge.amount_out, 
-                                        edge.inverse, uid=edge.uid) for edge in self.edges)
+                                        inverse=edge.inverse, uid=edge.uid) for edge in self.edges)
         else:
             edges = ( self.filter_edges(nin, nout)
                             for nin in self.nodes for nout in self.nodes if nin != nout)
@@ -919,8 +919,7 @@ class ArbGraph(_DCBase):
             edges = ( r for r in edges if not r == 0)    
         
         edges = ( r._replace_nodes(nodes) for r in edges)        
-        edges = tuple(edges)
-        return self.__class__(nodes=nodes.values(), edges=edges)
+        return self.__class__(nodes=list(nodes.values()), edges=list(edges))
 
     def reset_state(self):
         """
-- 
2.43.0


From 824bbb732165ee39e1f91a4e2d1207a0c604bc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 37/61] fix: run_arbitrage_cycle reports the index it started
 from

---
 carbon/tools/arbgraphs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 2816b5f..9f3feb8 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1533,9 +1533,11 @@ class ArbGraph(_DCBase):
         current_amount_in = None      # tracks the amount currently being pushed (None: to be initialised)
 
         # try to set the cycle to the token we want to use (if any)
+        start_ix = 0
         if not token is None:
             try:
                 cycle_pairs = cycle.pairs(start_val=self.node_by_tkn(token))
+                start_ix = cycle.data.index(self.node_by_tkn(token))
             except:
                 if P("allow_any_token"):
                     cycle_pairs = cycle.pairs()
@@ -1607,7 +1609,7 @@ class ArbGraph(_DCBase):
         
         result = self.RunArbCycleResult(
             cycle = cycle,
-            start_ix = 0,
+            start_ix = start_ix,
             token = e.tkn_out,
             profit = profit_amount,
             amount_in = effective_amount_in,
-- 
2.43.0


From 385d750fe445652f0293775bf460477738235ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 38/61] fix: run_arbitrage_cyclesf works with its default
 format

---
 carbon/tools/arbgraphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 9f3feb8..2449c03 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1653,7 +1653,7 @@ class ArbGraph(_DCBase):
         :format:       same as in `run_arbitrage_cycles`
         """
         if format is None:
-            format = self.ACREF_DF
+            format = self.ACRET_DF
 
         arbcycles = rawresults
         if format == self.ACRET_GEN or format == self.ACRET_TUPLE:
-- 
2.43.0


From 136a67b638001d0a483c1443547e107692543d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 39/61] fix: goalseek finds small prices, terminates for big
 ones and always returns a result object

---
 carbon/tools/optimizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index b171771..7b36d95 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -289,10 +289,13 @@ class OptimizerBase:
                 method="findminmax_nr"
                 )
             raise ValueError("function must have different signs at a,b")
-        while (b - a) > cls.GOALSEEKEPS:
+        # the precision is absolute above 1 and relative below, and never finer than the float grid
+        while (b - a) > cls.GOALSEEKEPS * min(1, abs(b)):
             c = (a + b) / 2
+            if not a < c < b:
+                break
             if func(c) == 0:
-                return c
+                return cls.SimpleResult(result=c, method="findminmax_nr")
             elif func(a) * func(c) < 0:
                 b = c
             else:
-- 
2.43.0


From 298da3561ea760240ef8175b09e766b0a44957a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 40/61] fix: margp_optimizer reports an error unless the
 converged prices meet the self-financing constraint

---
 carbon/tools/optimizer.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 7b36d95..06bf81a 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -1077,6 +1077,8 @@ class CPCArbOptimizer(OptimizerBase):
     
     MOEPS = 1e-6
     MOMAXITER = 50
+    MOSFEPS = 1e-3      # acceptable net flow as percentage of gross flow...
+    MOSFEPSL = 1e-5     # ...or of the liquidity of the curves
 
     def margp_optimizer(self, sfc=None, result=None, *, params=None):
         """
@@ -1311,7 +1313,24 @@ class CPCArbOptimizer(OptimizerBase):
         
         NOMR = lambda f: f if not result==self.MO_MINIMAL else None
         
-        if i == maxiter-1:
+        errormsg = None
+        if not criterium < eps:
+            errormsg = f"maximum number of iterations reached [{maxiter}]"
+        else:
+            # prices also stop moving where all curves are exhausted, but that is not a solution
+            # unless the constraints are met, ie unless the other tokens net out to zero
+            flows = {t: [0., 0., 0.] for t in tokens_t} # net flow, gross flow, liquidity
+            for c in curves_t:
+                dx, dy = c.dxdyfromp_f(get(p, tokens_ix.get(c.tknb))/get(p, tokens_ix.get(c.tknq)))[0:2]
+                for tkn, amt, liquidity in ((c.tknb, dx, c.x_act), (c.tknq, dy, c.y_act)):
+                    if tkn in flows:
+                        flows[tkn] = [a+b for a,b in zip(flows[tkn], (amt, abs(amt), liquidity))]
+            unmet = {t: net for t, (net, gross, liquidity) in flows.items() 
+                            if not abs(net) <= max(self.MOSFEPS * gross, self.MOSFEPSL * liquidity)}
+            if len(unmet) > 0:
+                errormsg = f"self-financing constraint not met {unmet}"
+
+        if errormsg is not None:
             return self.MargpOptimizerResult(
                 optimizer=NOMR(self),
                 result =  None,
@@ -1324,7 +1343,7 @@ class CPCArbOptimizer(OptimizerBase):
                 dtokens_t = None,
                 tokens_t = tokens_t,
                 n_iterations = i,
-                errormsg = f"maximum number of iterations reached [{maxiter}]",
+                errormsg = errormsg,
             )
         
         dtokens_d, dtokens_t = dtknfromp_f(p, asdct=True, islog10=False)
-- 
2.43.0


From 651d9ae0363e025479a876a1bb7253f7b919203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 41/61] fix: ConstantProductCurve.execute refuses trades that
 pay out more than the curve holds

---
 carbon/tools/cpc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 2fd16f4..ab5d50b 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -536,6 +536,8 @@ class ConstantProductCurve():
                     raise ValueError(f"dx must be >= -x_act (dx={dx}, x_act={self.x_act} {self.tknx} [{self.cid}: {self.pair}])")
             newx = self.x + dx
             newy = self.k / newx
+            if not ignorebounds and self.y - newy > max(self.y_act, 0)*(1+self.EPS) + self.EPSV*self.y:
+                raise ValueError(f"dx must be <= dx_max (dx={dx}, dx_max={self.dx_max} {self.tknx} [{self.cid}: {self.pair}])")
 
         else:
             if not dy >= -self.y_act:
@@ -543,6 +545,8 @@ class ConstantProductCurve():
                     raise ValueError(f"dy must be >= -y_act (dy={dy}, y_act={self.y_act} {self.tkny} [{self.cid}: {self.pair}])")
             newy = self.y + dy
             newx = self.k / newy
+            if not ignorebounds and self.x - newx > max(self.x_act, 0)*(1+self.EPS) + self.EPSV*self.x:
+                raise ValueError(f"dy must be <= dy_max (dy={dy}, dy_max={self.dy_max} {self.tkny} [{self.cid}: {self.pair}])")
         
         if verbose:
             if dx is None: dx=newx-self.x
@@ -842,6 +846,7 @@ class ConstantProductCurve():
         return True
     
     EPS = 1e-6
+    EPSV = 1e-12    # rounding errors, as percentage of virtual amounts
     def isequal(self, x, y):
         "returns True if x and y are equal within EPS"
         if x == 0:
-- 
2.43.0


From e52406fdd59d18f97c6478ff6244cfd3a84af405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 42/61] fix: a curve container can be added to itself, and
 errors of the added iterable are not swallowed

---
 carbon/tools/cpc.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index ab5d50b..f380ee6 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -953,12 +953,10 @@ class CPCContainer():
         """
 
         # unwrap iterables...
-        try:
-            for c in item:
+        if not isinstance(item, (ConstantProductCurve, CPCInverter)):
+            for c in tuple(item):
                 self.add(c)
             return self
-        except TypeError:
-            pass
 
         # ...and CPCInverter objects
         if isinstance(item, CPCInverter):
-- 
2.43.0


From 38a8823be7246f9eea9ee5dd9e9c97ed38d4312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 43/61] fix: curves added to a container use its token scale

---
 carbon/tools/cpc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index f380ee6..36caa2e 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -971,6 +971,7 @@ class CPCContainer():
         else:
             pass
             #print("[add] item.cid =", item.cid)
+        item.set_tokenscale(self.tokenscale)
         self.curves_by_cid[item.cid] = item
         self.curveix_by_curve[item] = len(self)
         self.curves += [item]
-- 
2.43.0


From f2f2a61a6fbdbafdb22b83c3821e4b75b808ed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 44/61] fix: curves with a trade in their params can be read
 back from csv

---
 carbon/tools/cpc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 36caa2e..164637c 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -23,6 +23,7 @@ from carbon.tools.params import Params
 import itertools
 from sys import float_info
 from hashlib import md5 as digest
+from ast import literal_eval
 
 try:
     dataclass_ = dataclass(frozen=True, kw_only=True)
@@ -222,7 +223,10 @@ class ConstantProductCurve():
         if self.params is None:
             super().__setattr__('params', AttrDict())
         elif isinstance(self.params, str):
-            data = json.loads(self.params.replace("'", '"'))
+            try:
+                data = literal_eval(self.params) # the string representation of a dict...
+            except (ValueError, SyntaxError):
+                data = json.loads(self.params.replace("'", '"')) # ...or json
             super().__setattr__('params', AttrDict(data))
         elif isinstance(self.params, dict):
             super().__setattr__('params', AttrDict(self.params))
-- 
2.43.0


From 094dea8a3e016de9820e7ed7cd326d0f8cb1ad8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 45/61] fix: the first Params.set_default stores its arguments

---
 carbon/tools/params.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/carbon/tools/params.py b/carbon/tools/params.py
index 330e392..6b22277 100644
--- a/carbon/tools/params.py
+++ b/carbon/tools/params.py
@@ -97,9 +97,8 @@ class Params():
         """
         if self._defaults is None:
             self._defaults = dict()
-        else:
-            for k, v in kwargs.items():
-                self._defaults[k] = v
+        for k, v in kwargs.items():
+            self._defaults[k] = v
         return self
     
     @property
-- 
2.43.0


From 7939905c0331fd4fba12d814577a0463873d8d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 46/61] fix: replicating a Params object keeps its defaults

---
 carbon/tools/params.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carbon/tools/params.py b/carbon/tools/params.py
index 6b22277..bbe6557 100644
--- a/carbon/tools/params.py
+++ b/carbon/tools/params.py
@@ -61,6 +61,8 @@ class Params():
             result = cls(**dct._params)
             if not dct._defaults is None and not defaults is None:
                 raise ValueError("Must not provide default in both constructor and dct", dct, defaults)
+            if not dct._defaults is None:
+                result._defaults = {**dct._defaults}
         else:
             result = cls(**dct)
 
-- 
2.43.0


From c4d2798c0f2233413a6831ee78287329e993e9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 47/61] fix: the documented formats of arbitrage cycle results
 can be produced

---
 carbon/tools/arbgraphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 2449c03..6d0a01f 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1474,7 +1474,7 @@ class ArbGraph(_DCBase):
         def __str__(self):
             return f"RACResult(profit: {self.profit:2.1f} [{self.token}], in: {self.amount_in:2.1f}, rpcs: {self.ppcs*100:.1f}%, ppcs: {self.ppcs:.1f}, len: {self.length},  uid: {self.cycle.uid})"
         
-        def asdict(self, *, include_cycle=True, exclude=None, include=None):
+        def asdict(self, include_cycle=True, *, exclude=None, include=None):
             dct =  {**asdict(self), "tokens": self.tokens(), "length": self.length, "r": self.r, 
                     "rpcs": self.rpcs, "ppcs": self.ppcs, "uid": self.cycle.uid}
             if not include_cycle:
-- 
2.43.0


From 6041c38893fae87cf8db4df2d8327b7917983af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 48/61] fix: Node.reset_state sets the amount it is given

---
 carbon/tools/arbgraphs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 6d0a01f..d963367 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -166,6 +166,7 @@ class Node(_DCBase):
         if amount is None:
             amount = 0
         self._state = self.State(amount=amount)
+        self._state.amount_.reset(amount)
 
     @property
     def tkn_p(self):
-- 
2.43.0


From 611e064086451c87c27b27995118d6dcd16ea89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:59 +0000
Subject: [PATCH 49/61] fix: goalseek accepts a zero at the ends of the
 interval

---
 carbon/tools/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 06bf81a..50ae0a6 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -289,6 +289,9 @@ class OptimizerBase:
                 method="findminmax_nr"
                 )
             raise ValueError("function must have different signs at a,b")
+        for x in (a, b):
+            if func(x) == 0:
+                return cls.SimpleResult(result=x, method="findminmax_nr")
         # the precision is absolute above 1 and relative below, and never finer than the float grid
         while (b - a) > cls.GOALSEEKEPS * min(1, abs(b)):
             c = (a + b) / 2
-- 
2.43.0


From e9eb7f3cecaf7404881fdc60a186453b0f9c4b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 50/61] fix: the value of a SharedVar is a number, also after
 operations with another SharedVar

---
 carbon/helpers/sharedvar.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/carbon/helpers/sharedvar.py b/carbon/helpers/sharedvar.py
index 5d13848..5bea650 100644
--- a/carbon/helpers/sharedvar.py
+++ b/carbon/helpers/sharedvar.py
@@ -33,6 +33,16 @@ class SharedVar:
     def __init__(self, value, oid=None):
         self._value = value
     
+    @property
+    def _value(self):
+        """the encapsulated number"""
+        return self._number
+
+    @_value.setter
+    def _value(self, value):
+        # the result of an operation with another SharedVar is a SharedVar
+        self._number = value.value if isinstance(value, SharedVar) else value
+
     @property
     def id(self):
         """the unique object id"""
-- 
2.43.0


From 0861b72aa2bc007d8629ec4a6d26be29e7491142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:55 +0000
Subject: [PATCH 51/61] fix: looking up a missing item does not make
 Params.construct refuse defaults

---
 carbon/tools/params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/params.py b/carbon/tools/params.py
index bbe6557..e6e84f0 100644
--- a/carbon/tools/params.py
+++ b/carbon/tools/params.py
@@ -59,7 +59,7 @@ class Params():
             result = cls()
         elif isinstance(dct, cls):
             result = cls(**dct._params)
-            if not dct._defaults is None and not defaults is None:
+            if dct._defaults and not defaults is None:
                 raise ValueError("Must not provide default in both constructor and dct", dct, defaults)
             if not dct._defaults is None:
                 result._defaults = {**dct._defaults}
-- 
2.43.0


From a20da84cb496b1939db579c8d40cd24d3c42493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:25 +0000
Subject: [PATCH 52/61] fix: Analytics.effective_price works with the default
 pair and with the BID and ASK constants

---
 carbon/simulators/sim_analytics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/simulators/sim_analytics.py b/carbon/simulators/sim_analytics.py
index 37744c9..7543032 100644
--- a/carbon/simulators/sim_analytics.py
+++ b/carbon/simulators/sim_analytics.py
@@ -175,11 +175,11 @@ class Analytics:
         if pair is None: 
             if sim is None:
                 raise ValueError("If pair is None then sim must be provided in arguments or class defaults")
-            pair = sim.pair 
-        if bidask == self.BID_BOOK: 
+            pair = sim.slashpair 
+        if bidask in (self.BID_BOOK, self.BID): 
             price_f = sim.amm_buys
             fail_value = self.MAXPRICE
-        elif bidask == self.ASK_BOOK: 
+        elif bidask in (self.ASK_BOOK, self.ASK): 
             price_f = sim.amm_sells
             fail_value = 0.
         else:
-- 
2.43.0


From be8429c65a71d5332fc20911179988cc91aedafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:25 +0000
Subject: [PATCH 53/61] fix: Analytics.simulate_trades uses the simulator it is
 given, also without a carbon pair

---
 carbon/simulators/sim_analytics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/carbon/simulators/sim_analytics.py b/carbon/simulators/sim_analytics.py
index 7543032..c50ea0a 100644
--- a/carbon/simulators/sim_analytics.py
+++ b/carbon/simulators/sim_analytics.py
@@ -211,9 +211,8 @@ class Analytics:
         """
         if sim is None: sim = self.sim
         if carbon_pair is None:
-            if self.sim is None:
+            if sim is None:
                 raise ValueError("The `sim` object must be provided and have a default carbon pair if `carbon_pair` is not given.")
-            sim = self.sim
             if sim.carbon_pair is None:
                 raise ValueError("The `sim` object must have a default carbon pair if `carbon_pair` is not given.")
             carbon_pair = sim.carbon_pair
-- 
2.43.0


From 48873fbb37c90b18c789223af2e76ca48abc91a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:25 +0000
Subject: [PATCH 54/61] fix: Analytics.truncate drops the size together with
 the missing amount

---
 carbon/simulators/sim_analytics.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/carbon/simulators/sim_analytics.py b/carbon/simulators/sim_analytics.py
index c50ea0a..50133d1 100644
--- a/carbon/simulators/sim_analytics.py
+++ b/carbon/simulators/sim_analytics.py
@@ -133,14 +133,15 @@ class Analytics:
     @classmethod
     def truncate(cls, s1, s2):
         """
-        truncates both series to the same length, removing NaN / None from the end of the second
+        truncates both series to the same length, removing the items where the second is NaN / None
         
-        :s1:                shortened if need be to the length of s2
-        :s2:                truncated of NaN / None at the end
+        :s1:                shortened if need be to the items kept in s2
+        :s2:                truncated of NaN / None
         :returns:           truncated (s1, s2)
         """
-        s2r = cls.vec(x for x in s2 if not cls.isnonenan(x))
-        s1r = s1[:len(s2r)]
+        items = [(x1, x2) for x1, x2 in zip(s1, s2) if not cls.isnonenan(x2)]
+        s1r = cls.vec(x1 for x1, _ in items)
+        s2r = cls.vec(x2 for _, x2 in items)
         return s1r, s2r
 
     BID_BOOK = "amm_buys"
-- 
2.43.0


From d2a568bde6dc2635f0fcc77cfed611adf93160e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:25 +0000
Subject: [PATCH 55/61] fix: the symmetric pair tables count pairs that are
 listed in one direction only

---
 carbon/tools/cpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 164637c..413e235 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -1074,7 +1074,7 @@ class CPCContainer():
         """converts df into upper triangular matrix by adding the lower triangle"""
         df = df.copy()
         fields = df.index.union(df.columns)
-        df = df.reindex(index=fields, columns=fields)
+        df = df.reindex(index=fields, columns=fields).fillna(0)
         df = df + df.T
         df = df.fillna(0).astype(int)
         return df
-- 
2.43.0


From b29b8695db2e94df7a898b603fe02ef6c7d2f88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:24 +0000
Subject: [PATCH 56/61] fix: CarbonSDK.pairs uses the token list of the client,
 and names unknown tokens by their address

---
 carbon/sdk/carbonsdk0.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/sdk/carbonsdk0.py b/carbon/sdk/carbonsdk0.py
index 5e33c8a..e189de9 100644
--- a/carbon/sdk/carbonsdk0.py
+++ b/carbon/sdk/carbonsdk0.py
@@ -150,12 +150,12 @@ class CarbonSDK0(SDKBase):
         T = self.Tokens
         r = self.call(n("pairs"), params={}, sync=True)
         pairs_raw = self._checkresult(r)
-        if Tokens is None:
+        if T is None:
             return pairs_raw
-        pairs = [ [Tokens(p[0]), Tokens(p[1])] for p in pairs_raw]
+        pairs = [ [T(p[0]), T(p[1])] for p in pairs_raw]
         if not inclstr:
             return pairs
-        pairs_s = ", ".join([f"{p[0].T}/{p[1].T}" for p in pairs])
+        pairs_s = ", ".join(["/".join(T.byaddr1(addr, tknonly=True) for addr in p) for p in pairs_raw])
         return pairs, pairs_s
         
     def hasLiquidityByPair(self, sourceTokenAddr=None, targetTokenAddr=None, pairs=None):
-- 
2.43.0


From 6dad6726ca4ca74c5ad99bdcd0a7d83a4eda3846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:24 +0000
Subject: [PATCH 57/61] fix: mPrepareTrade accepts every token in the token
 list of the client

---
 carbon/sdk/carbonsdk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index 4c83183..2434f63 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -731,8 +731,8 @@ class CarbonSDK(CarbonSDK0):
         sourceTokenO = T[sourceToken]
         targetTokenO = T[targetToken]
         tradeByTargetAmount = (tkn == targetToken)
-        if not Tokens.containsall({sourceToken, targetToken}):
-            raise ValueError("not all token addresses are availabe", pair, Tokens)
+        if not T.containsall({sourceToken, targetToken}):
+            raise ValueError("not all token addresses are availabe", pair, T)
         data = self.getTradeData(
             sourceToken=sourceTokenO.a, 
             targetToken=targetTokenO.a, 
-- 
2.43.0


From 2ae0e7e0342dfbad80910cb2b928ffc276926ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:43 +0000
Subject: [PATCH 58/61] fix: the reverse view of a curve without bounds reports
 no bounds instead of failing

---
 carbon/tools/cpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 413e235..7e06753 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -1814,11 +1814,11 @@ class CPCInverter():
     
     @property
     def p_min(self):
-        return 1/self.curve.p_max
+        return 1/self.curve.p_max if not self.curve.p_max is None else None
     
     @property
     def p_max(self):
-        return 1/self.curve.p_min
+        return 1/self.curve.p_min if not self.curve.p_min is None else None
     
     @property
     def y_act(self):
-- 
2.43.0


From 54406e6b9cc3d714f2d54a8090a49a5b61bfc1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:28 +0000
Subject: [PATCH 59/61] fix: strategies of the SDK that only buy or only sell
 can be read

---
 carbon/carbon_order_ui.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index fa8f2bb..9beda34 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -104,6 +104,8 @@ class CarbonOrderUI:
                 self.pmin = self.pb
                 self.pmax = self.pa  
         else:
+            self.pa = None
+            self.pb = None
             self.pmin = None
             self.pmax = None        
     
@@ -310,18 +312,24 @@ class CarbonOrderUI:
         tknqa = sdkStrategy["quoteToken"]
         tknqo = Tokens.byticker(tknqa, raiseonerror=False, returnnultkn=False)
         tknq = tknqo.T if not tknqo is None else "TKNQ"
-        tknql = cls.bn2int(tknqe["y"]) / cls.bn2int(tknqe["z"])
+        # the part of the capacity that is still there (a side that is not used has no capacity)
+        share = lambda order: cls.bn2int(order["y"]) / cls.bn2int(order["z"]) if cls.bn2int(order["z"]) else 0
+        tknql = share(tknqe)
         tknba = sdkStrategy["baseToken"]
         tknbo = Tokens.byticker(tknba, raiseonerror=False, returnnultkn=False)
         tknb = tknbo.T if not tknbo is None else "TKNB"
-        tknbl = cls.bn2int(tknbe["y"]) / cls.bn2int(tknbe["z"])
+        tknbl = share(tknbe)
         
         pair = CarbonPair(tknq=tknq, tknb=tknb)
         # the tkn in the constructor is the one that is being sold
-        o_selltknb = cls.from_prices(pair=pair, tkn=tknb, pa=s["sellPriceLow"], 
-            pb=s["sellPriceHigh"], yint=s["sellBudget"], y=s["sellBudget"]*tknbl, id=f"{sid}-s")
-        o_buytknb  = cls.from_prices(pair=pair, tkn=tknq, pa=s["buyPriceHigh"], 
-            pb=s["buyPriceLow"], yint=s["buyBudget"], y=s["buyBudget"]*tknql, id=f"{sid}-b")
+        def order(tkn, pa, pb, budget, share, id):
+            if pa == 0 and pb == 0:
+                # no range: this side of the strategy is not used
+                return cls(pair=pair, tkn=tkn, B=0., S=0., yint=budget, y=budget*share, id=id)
+            return cls.from_prices(pair=pair, tkn=tkn, pa=pa, pb=pb, yint=budget, y=budget*share, id=id)
+
+        o_selltknb = order(tknb, s["sellPriceLow"], s["sellPriceHigh"], s["sellBudget"], tknbl, f"{sid}-s")
+        o_buytknb  = order(tknq, s["buyPriceHigh"], s["buyPriceLow"], s["buyBudget"], tknql, f"{sid}-b")
         o_buytknb.set_linked(o_selltknb)
         o_selltknb.set_linked(o_buytknb)
         return o_buytknb, o_selltknb
-- 
2.43.0


From 160ce53d9a046fa47ff8c1cfb10f57c2f4bafd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:31 +0000
Subject: [PATCH 60/61] fix: add_fromsdk reports a malformed strategy as a
 failure when errors are contained

---
 carbon/simulators/carbon_simulator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index 86e5ac8..a4b8f65 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -423,7 +423,12 @@ class CarbonSimulatorUI:
         :nsd:           number of significant decimals to round to (None=no rounding)
         :returns:       return value of add_strategy
         """
-        obuy, osell = CarbonOrderUI.from_SDK(sdkStrategy, nsd)
+        try:
+            obuy, osell = CarbonOrderUI.from_SDK(sdkStrategy, nsd)
+        except Exception as e:
+            if self.raiseonerror:
+                raise
+            return {"success": False, "error": str(e), "exception": e}
         return self.add_strategy(
             tkn = osell.tkn,
             amt_sell = osell.y,
-- 
2.43.0


From 049bf44808ed4edb9be17abb24b79bdb2d90b750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:38 +0000
Subject: [PATCH 61/61] fix: strategies from the SDK carry their carbon id in
 readable form

---
 carbon/simulators/carbon_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index a4b8f65..40cebcc 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -440,7 +440,7 @@ class CarbonSimulatorUI:
             pbuy_start = obuy.pa,
             pbuy_end = obuy.pb,
             pair = osell.pair,
-            carbon_id = sdkStrategy["id"]
+            carbon_id = str(CarbonOrderUI.bn2int(sdkStrategy["id"]))
         )
         
     def add_strategy(
-- 
2.43.0

