From 3362e2a1c5ca289d41041140b5ac0d1b7934622d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 01/65] fix: get_swap_annuity paired every date with itself and
 was always zero

---
 dcf/curves/interestratecurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index e0c3bb2..667b15b 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -275,7 +275,7 @@ class InterestRateCurve(RateCurve):
         """
         return sum(
             self.get_discount_factor(self.origin, e) * self.day_count(s, e)
-            for s, e in zip(date_list[:-1], date_list[0:])
+            for s, e in zip(date_list[:-1], date_list[1:])
         )
 
 
-- 
2.43.0


From 646f6c44c09c9f2183bc9744c88f41ed292c12aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 02/65] fix: FlatIntensityCurve.get_flat_intensity(x, x) used a
 missing attribute

---
 dcf/curves/creditcurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index 4bc85d4..fb43674 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -231,7 +231,7 @@ class FlatIntensityCurve(CreditCurve):
             return self(stop)
         if start == stop:
             return self._get_compounding_rate(
-                start, start + self.__class__._time_shift)
+                start, start + self.__class__._TIME_SHIFT)
 
         s = self(start) * self.day_count(self.origin, start)
         e = self(stop) * self.day_count(self.origin, stop)
-- 
2.43.0


From 111274d8776ce1567659e220a5bbab36af6012b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 03/65] fix: CashRateCurve.get_cash_rate recursed without end
 off its own tenor

---
 dcf/curves/interestratecurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index 667b15b..b742c71 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -438,4 +438,4 @@ class CashRateCurve(InterestRateCurve):
             stop = start + self.forward_tenor if step is None else start + step
         if stop == start + self.forward_tenor:
             return self(start)
-        return super(CashRateCurve, self).get_cash_rate(start, stop)
+        return super(CashRateCurve, self)._get_cash_rate(start, stop)
-- 
2.43.0


From 66cc550f0006dbd0a0c02a0e51201084f7675a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 04/65] fix: short and hazard rate of single point curves
 recursed without end

---
 dcf/curves/creditcurve.py       | 4 +++-
 dcf/curves/interestratecurve.py | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index fb43674..de07da4 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -119,7 +119,9 @@ class CreditCurve(RateCurve):
         return self._get_hazard_rate(start)
 
     def _get_hazard_rate(self, start):  # aka get_short_rate
-
+        if len(self.domain) == 1:
+            # no period between grid points, i.e. flat curve
+            return self.get_flat_intensity(self.origin, self.domain[0])
         if start < min(self.domain):
             return self.get_hazard_rate(min(self.domain))
         if max(self.domain) <= start:
diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index b742c71..1b0630c 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -143,6 +143,9 @@ class InterestRateCurve(RateCurve):
         return self._get_short_rate(start)
 
     def _get_short_rate(self, start):
+        if len(self.domain) == 1:
+            # no period between grid points, i.e. flat curve
+            return self.get_zero_rate(self.origin, self.domain[0])
         if start < min(self.domain):
             return self.get_short_rate(min(self.domain))
         if max(self.domain) <= start:
-- 
2.43.0


From 76dfd971bc137672c1e673de025c4f2680a048eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 05/65] fix: call gamma and theta passed the expiry date
 instead of the time to expiry

---
 dcf/models/optionpricing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 3858226..38d145d 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -337,7 +337,7 @@ class OptionPayOffModel(OptionPricingFormula):
         if not vol or not time:
             return 0.0
         if not self.bump_greeks:
-            gamma = self._call_gamma(date, strike, fwd, vol)
+            gamma = self._call_gamma(time, strike, fwd, vol)
             if gamma is not None:
                 return gamma * (scale ** 2)
         gamma = self._call_price(time, strike, fwd + shift, vol)
@@ -422,7 +422,7 @@ class OptionPayOffModel(OptionPricingFormula):
         if not vol or not time:
             return 0.0
         if not self.bump_greeks:
-            theta = self._call_theta(date, strike, fwd, vol)
+            theta = self._call_theta(time, strike, fwd, vol)
             if theta is not None:
                 return theta * scale
         theta = self._call_price(time + shift, strike, fwd, vol)
-- 
2.43.0


From c911a8aee86213e45d03636cd091246def590844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 06/65] fix: bumped call vega priced its base with the expiry
 date as time

---
 dcf/models/optionpricing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 38d145d..f0ec0cd 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -384,7 +384,7 @@ class OptionPayOffModel(OptionPricingFormula):
             if vega is not None:
                 return vega * scale
         vega = self._call_price(time, strike, fwd, vol + shift)
-        vega -= self._call_price(date, strike, fwd, vol)
+        vega -= self._call_price(time, strike, fwd, vol)
         vega *= scale / shift
         return vega
 
-- 
2.43.0


From 7a28a4f209be451ecf4a0d5ae57341b61336335f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 07/65] fix: bumped call theta was not divided by its shift

---
 dcf/models/optionpricing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index f0ec0cd..7018807 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -427,7 +427,8 @@ class OptionPayOffModel(OptionPricingFormula):
                 return theta * scale
         theta = self._call_price(time + shift, strike, fwd, vol)
         theta -= self._call_price(time, strike, fwd, vol)
-        return theta * scale
+        theta *= scale / shift
+        return theta
 
     def get_put_theta(self, date, strike=None):
         r""" time sensitivity of a put option
-- 
2.43.0


From f8bb3146bdf947c73307fb1dbf2b214f93162e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 08/65] fix: options past expiry took the square root of a
 negative time

---
 dcf/models/optionpricing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 7018807..1bc78d9 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -166,7 +166,9 @@ class OptionPayOffModel(OptionPricingFormula):
     def _tsfv(self, date, strike=None):
         details = self.details(date, strike)
         keys = 'time to expiry', 'strike', 'forward', 'volatility'
-        return tuple(details.get(k, None) for k in keys)
+        time, *values = tuple(details.get(k, None) for k in keys)
+        # no optionality left after expiry
+        return max(time, 0.0), *values
         # fwd = 0.0
         # if self.forward_curve:
         #     if hasattr(self.forward_curve, 'get_forward_price'):
-- 
2.43.0


From 86c4193cfe35394353acafb4fc2eaf889fc9b0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 09/65] fix: binary call spread model ignored its strike_shift
 argument

---
 dcf/models/optionpricing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 1bc78d9..921690b 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -479,6 +479,8 @@ class BinaryOptionPayOffModel(OptionPayOffModel):
 
         """
         self._inner = pricing_formula
+        self._strike_shift = self.__class__.STRIKE_SHIFT \
+            if strike_shift is None else strike_shift
         if isinstance(pricing_formula, OptionPayOffModel):
             valuation_date = valuation_date or pricing_formula.valuation_date
             forward_curve = forward_curve or pricing_formula.forward_curve
@@ -489,7 +491,7 @@ class BinaryOptionPayOffModel(OptionPayOffModel):
                          day_count, bump_greeks=True)
 
     def _call_price(self, time, strike, forward, volatility):
-        shift = self.__class__.STRIKE_SHIFT
+        shift = self._strike_shift
         high_strike = strike + shift / 2
         low_strike = strike - shift / 2
         call = self._inner(time, low_strike, forward, volatility)
-- 
2.43.0


From 686323eb839194dab484b98f009da47096467c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 10/65] fix: interpolation from_dict handed over a generator
 which is exhausted by log interpolation

---
 dcf/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/interpolation.py b/dcf/interpolation.py
index dd5b3a0..6bcc894 100755
--- a/dcf/interpolation.py
+++ b/dcf/interpolation.py
@@ -66,7 +66,7 @@ class base_interpolation(object):
         :return: interpolation object
         """
 
-        return cls(sorted(xy_dict), (xy_dict[k] for k in sorted(xy_dict)))
+        return cls(sorted(xy_dict), [xy_dict[k] for k in sorted(xy_dict)])
 
 
 class flat(base_interpolation):
-- 
2.43.0


From 6079f8515aa71a4627c2220a9d82eb94fb49ddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 11/65] fix: log rate interpolation returned None at zero and
 broke df and survival prob at origin

---
 dcf/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/interpolation.py b/dcf/interpolation.py
index 6bcc894..0c1bcc3 100755
--- a/dcf/interpolation.py
+++ b/dcf/interpolation.py
@@ -442,7 +442,7 @@ class loglinearrate(linear):
                 'log interpolation requires positive values. Got %s' % str(
                     y_list))
         z = [x for x in x_list if not x]
-        self._y_at_zero = y_list[x_list.index(z[0])] if z else None
+        self._y_at_zero = y_list[x_list.index(z[0])] if z else 1.0
         log_y_list = [log(y) / x for x, y in zip(x_list, y_list) if x]
         x_list = [x for x in x_list if x]
         super(loglinearrate, self).__init__(x_list, log_y_list)
@@ -490,7 +490,7 @@ class logconstantrate(constant):
         if not all(0. < y for y in y_list):
             raise ValueError('log interpolation requires positive values.')
         z = [x for x in x_list if not x]
-        self._y_at_zero = y_list[x_list.index(z[0])] if z else None
+        self._y_at_zero = y_list[x_list.index(z[0])] if z else 1.0
         log_y_list = [-log(y) / x for x, y in zip(x_list, y_list) if x]
         x_list = [x for x in x_list if x]
         super(logconstantrate, self).__init__(x_list, log_y_list)
-- 
2.43.0


From 58727e4105488a335c9c051dfb9db1d003eb93f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 12/65] fix: ContingentRateCashFlowList dropped an origin of
 zero

---
 dcf/cashflows/contingent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index 661fea3..b7148cc 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -245,7 +245,7 @@ class ContingentRateCashFlowList(ContingentCashFlowList):
         if isinstance(amount_list, (int, float)):
             amount_list = [amount_list] * len(payment_date_list)
 
-        if origin:
+        if origin is not None:
             start_dates = [origin]
             start_dates.extend(payment_date_list[:-1])
         elif origin is None and len(payment_date_list) > 1:
-- 
2.43.0


From 45c9979ec0b97c740b3170c43a9a5e7f68dd021b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 13/65] fix: OptionStrategyCashflowList failed to build its too
 many options error message

---
 dcf/cashflows/contingent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index b7148cc..bf6676d 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -181,7 +181,8 @@ class OptionStrategyCashflowList(ContingentCashFlowList):
         if 10 < len(put_strike_list) + len(call_strike_list):
             raise KeyError('OptionStrategyCashflowList are limited '
                            'to 10 options per strategy payoff not '
-                           '%d' % len(put_strike_list) + len(call_strike_list))
+                           '%d' % (len(put_strike_list)
+                                   + len(call_strike_list)))
         payoff_list = list()
         for expiry in payment_date_list:
             if pay_offset:
-- 
2.43.0


From 6f2185d465978ec2bf65ed134a40091cb1119c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 14/65] fix: CashFlowLegList call returned zero cashflows

---
 dcf/cashflows/cashflow.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 5a71e49..91f19ea 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -231,6 +231,11 @@ class CashFlowLegList(CashFlowList):
             return sum(
                 float(leg[item]) for leg in self._legs if item in leg.domain)
 
+    def __call__(self, _=None):
+        legs = tuple(leg(_) for leg in self._legs)
+        flows = list(sum(leg[item] for leg in legs) for item in self.domain)
+        return CashFlowList(self.domain, flows, self._origin)
+
     def __add__(self, other):
         for leg in self._legs:
             leg.__add__(other)
-- 
2.43.0


From f80554919b6c580da74dbfc2c53a572e722820da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 15/65] fix: get_interest_accrued failed for contingent rate
 cashflows

---
 dcf/pricer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index ead6041..5ddc8e9 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -284,7 +284,7 @@ def get_interest_accrued(cashflow_list, valuation_date):
                 if cf.start < valuation_date:
                     remaining = cf.day_count(valuation_date, cf.end)
                     total = cf.day_count(cf.start, cf.end)
-                    flow = cf(cashflow_list.forward_curve)
+                    flow = cashflow_list[pay_date]
                     ac += flow * (1. - remaining / total)
     return ac
 
-- 
2.43.0


From 92f9f69759e63b9bdafbd8e0da5a00455a217325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 16/65] fix: curves could not be iterated

---
 dcf/curves/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 95ada81..d5bc7f4 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -268,7 +268,7 @@ class Curve(object):
         return item in self.domain
 
     def __iter__(self):
-        return self.domain
+        return iter(self.domain)
 
     def __getitem__(self, item):
         if item in self:
-- 
2.43.0


From 980eafe05a47bb6be2ee6644e3614552fdd66cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 17/65] fix: forward prices extrapolate from the latest and not
 the last given date

---
 dcf/curves/curve.py | 2 +-
 dcf/curves/fx.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index d5bc7f4..938b55f 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -634,7 +634,7 @@ class ForwardCurve(DateCurve):
         :param value_date: future date of asset price
         :return: asset forward price at **value_date**
         """
-        last_date = self.domain[-1]
+        last_date = max(self.domain)
         if value_date <= last_date:
             return super().__call__(value_date)
         last_price = super().__call__(last_date)
diff --git a/dcf/curves/fx.py b/dcf/curves/fx.py
index 01c54c0..0f81277 100755
--- a/dcf/curves/fx.py
+++ b/dcf/curves/fx.py
@@ -28,7 +28,7 @@ class FxForwardCurve(ForwardCurve):
         self.foreign_curve = foreign_curve
 
     def get_forward_price(self, value_date):
-        last_date = self.domain[-1]
+        last_date = max(self.domain)
         if value_date <= last_date:
             return super().get_forward_price(value_date)
         else:
-- 
2.43.0


From c68554986a2dc28d2dd1beb2b85ae7cc3fe11ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 18/65] fix: annuity plan with zero rate divided by zero

---
 dcf/plans.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcf/plans.py b/dcf/plans.py
index 4b49e38..f96dd9d 100644
--- a/dcf/plans.py
+++ b/dcf/plans.py
@@ -64,6 +64,8 @@ def annuity(num, amount=DEFAULT_AMOUNT, fixed_rate=FIXED_RATE):
     Payment plan
     $$X_i = \frac{r}{(1 + r)^{n-i}} \cdot N \text{ for } i=1 \dots n$$
     """
+    if not fixed_rate:
+        return amortize(num, amount)
     q = 1. + fixed_rate
     a = amount * (q - 1) / (q ** int(num) - 1)
     return list(a * q ** i for i in range(int(num)))
-- 
2.43.0


From 8f34eb01f8c23caba58b7bfca8869386d520b848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 19/65] fix: casting a terminal volatility curve given by a
 tuple of dates failed

---
 dcf/curves/volatilitycurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/volatilitycurve.py b/dcf/curves/volatilitycurve.py
index 9315fb0..fa191b3 100644
--- a/dcf/curves/volatilitycurve.py
+++ b/dcf/curves/volatilitycurve.py
@@ -49,7 +49,7 @@ class InstantaneousVolatilityCurve(VolatilityCurve):
             data = domain
             origin = data.origin if origin is None else origin
             new_domain = list()
-            for d in data.domain + [origin]:
+            for d in list(data.domain) + [origin]:
                 new_domain.extend(
                     [d - self._TIME_SHIFT, d, d + self._TIME_SHIFT])
             domain = sorted(set(new_domain))
-- 
2.43.0


From e425834da5019426258ffa18986f59c465a84686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 20/65] fix: bracketing recursed without end once the interval
 can not be divided further

---
 dcf/pricer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 5ddc8e9..d231b57 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -44,6 +44,9 @@ def _simple_bracketing(func, a, b, precision=1e-13):
     m = a + (b - a) * 0.5
     if abs(b - a) < precision and abs(fb - fa) < precision:
         return a, m, b
+    if m == a or m == b:
+        # float resolution exhausted
+        return a, m, b
 
     a, b = (m, b) if f(m) < 0 else (a, m)
     return _simple_bracketing(f, a, b, precision)
-- 
2.43.0


From 3bf661383c211ad3d3e988f2c40514a832945691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 21/65] fix: get_present_value failed for payoff models without
 valuation date and did not restore it on errors

---
 dcf/pricer.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index d231b57..5270d2b 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -97,23 +97,25 @@ def get_present_value(
         return sum(get_present_value(
             leg, discount_curve, valuation_date) for leg in cashflow_list.legs)
 
-    # store and set valuation date to payoff_model
-    model_valuation_date = valuation_date
-    if hasattr(cashflow_list, 'payoff_model'):
-        model_valuation_date = cashflow_list.payoff_model.valuation_date
-        cashflow_list.payoff_model.valuation_date = valuation_date
-
     # filter flows
     pay_dates = list(d for d in cashflow_list.domain if valuation_date <= d)
 
+    # evaluate flows with valuation date set to payoff_model
+    payoff_model = getattr(cashflow_list, 'payoff_model', None)
+    if hasattr(payoff_model, 'valuation_date'):
+        model_valuation_date = payoff_model.valuation_date
+        payoff_model.valuation_date = valuation_date
+        try:
+            flows = cashflow_list[pay_dates]
+        finally:
+            payoff_model.valuation_date = model_valuation_date
+    else:
+        flows = cashflow_list[pay_dates]
+
     # discount flows
-    value_flows = zip(pay_dates, cashflow_list[pay_dates])
+    value_flows = zip(pay_dates, flows)
     values = (discount_curve.get_discount_factor(valuation_date, t) * float(a)
               for t, a in value_flows)
-
-    # re-store model_valuation_date
-    if hasattr(cashflow_list, 'payoff_model'):
-        cashflow_list.payoff_model.valuation_date = model_valuation_date
     return sum(values)
 
 
-- 
2.43.0


From a87e967ef149ea8e74bbc24d6edaf6369cae1536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 22/65] fix: get_fair_rate did not restore fixed rates which
 differ or if no rate was found

---
 dcf/pricer.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 5270d2b..1229608 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -353,8 +353,9 @@ def get_fair_rate(cashflow_list, discount_curve,
     1000000.0
 
     """  # noqa 501
-    # store fixed rate
-    fixed_rate = cashflow_list.fixed_rate
+    # store fixed rates (may differ from cashflow to cashflow)
+    payoffs = cashflow_list.payoff(cashflow_list.domain)
+    fixed_rates = tuple(payoff.fixed_rate for payoff in payoffs)
 
     # set error function
     def err(current):
@@ -363,10 +364,12 @@ def get_fair_rate(cashflow_list, discount_curve,
         return pv - present_value
 
     # run bracketing
-    _, par, _ = _simple_bracketing(err, *bounds, precision)
-
-    # restore fixed rate
-    cashflow_list.fixed_rate = fixed_rate
+    try:
+        _, par, _ = _simple_bracketing(err, *bounds, precision)
+    finally:
+        # restore fixed rates
+        for payoff, fixed_rate in zip(payoffs, fixed_rates):
+            payoff.fixed_rate = fixed_rate
     return par
 
 
-- 
2.43.0


From e5b4fe99597bf03f4b024b66a830c02e7be765f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 23/65] fix: bpv, bucketed delta and curve fit left a spread on
 curves when valuation failed

---
 dcf/pricer.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 1229608..9215641 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -52,6 +52,20 @@ def _simple_bracketing(func, a, b, precision=1e-13):
     return _simple_bracketing(f, a, b, precision)
 
 
+def _shifted_present_value(cashflow_list, discount_curve, valuation_date,
+                           delta_curve, spread):
+    """ present value with **spread** set on each curve in **delta_curve** """
+    shifted = list()
+    try:
+        for d in delta_curve:
+            d.spread = spread(d)
+            shifted.append(d)
+        return get_present_value(cashflow_list, discount_curve, valuation_date)
+    finally:
+        for d in shifted:
+            d.spread = None
+
+
 def get_present_value(
         cashflow_list, discount_curve, valuation_date=None):
     r""" calculates the present value by discounting cashflows
@@ -429,11 +443,9 @@ def get_basis_point_value(cashflow_list, discount_curve, valuation_date=None,
     if not isinstance(delta_curve, (list, tuple)):
         delta_curve = delta_curve,
 
-    for d in delta_curve:
-        d.spread = DateCurve([d.origin], [shift])
-    sh = get_present_value(cashflow_list, discount_curve, valuation_date)
-    for d in delta_curve:
-        d.spread = None
+    sh = _shifted_present_value(
+        cashflow_list, discount_curve, valuation_date, delta_curve,
+        lambda d: DateCurve([d.origin], [shift]))
 
     return (sh - pv) / shift * .0001
 
@@ -576,11 +588,9 @@ def get_bucketed_delta(cashflow_list, discount_curve, valuation_date=None,
 
     buckets = list()
     for g, s in zip(grids, shifts):
-        for d in delta_curve:
-            d.spread = DateCurve(g, s)
-        sh = get_present_value(cashflow_list, discount_curve, valuation_date)
-        for d in delta_curve:
-            d.spread = None
+        sh = _shifted_present_value(
+            cashflow_list, discount_curve, valuation_date, delta_curve,
+            lambda d: DateCurve(g, s))
 
         buckets.append((sh - pv) / shift * .0001)
     return tuple(buckets)
@@ -740,7 +750,11 @@ def get_curve_fit(cashflow_list, discount_curve, valuation_date=None,
             return sum(pvs)
 
         # run bracketing
-        _simple_bracketing(err, *bounds, precision)
+        try:
+            _simple_bracketing(err, *bounds, precision)
+        except Exception:
+            fitting_curve.spread = None
+            raise
 
     data = fitting_curve(fitting_curve.spread.domain)
     fitting_curve.spread = None
-- 
2.43.0


From 6984c8dc164a153aa05a2aa3db327770711e1e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 24/65] fix: get_bucketed_delta default grid is the one of the
 shifted curve

---
 dcf/pricer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 9215641..e439567 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -567,7 +567,8 @@ def get_bucketed_delta(cashflow_list, discount_curve, valuation_date=None,
 
     pv = get_present_value(cashflow_list, discount_curve, valuation_date)
     delta_curve = discount_curve if delta_curve is None else delta_curve
-    delta_grid = delta_grid if delta_grid else discount_curve.domain
+    delta_grid = delta_grid if delta_grid else \
+        getattr(delta_curve, 'domain', discount_curve.domain)
 
     if len(delta_grid) == 1:
         grids = (delta_grid,)
-- 
2.43.0


From 0d14dba9e81226f2455442d41aa083f813e64d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 25/65] fix: setting a curve point stored spread and fixings
 into all the other points

---
 dcf/curves/curve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 938b55f..1470856 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -263,6 +263,7 @@ class Curve(object):
             domain, data = map(list, zip(*sorted(zip(*(domain, data)))))
         self._func = func(domain, data)
         self._domain = domain
+        self._values = data
 
     def __contains__(self, item):
         return item in self.domain
@@ -277,7 +278,7 @@ class Curve(object):
 
     def __setitem__(self, key, value):
         domain = list(self.domain)
-        data = list(self(domain))
+        data = list(self._values)
         if key in domain:
             data[domain.index(key)] = value
         else:
@@ -453,6 +454,7 @@ class DateCurve(Curve):
         flt_domain = tuple(self.day_count(d) for d in domain)
         super()._update(flt_domain, data)
         self._domain = domain
+        self._values = data
 
     def __call__(self, x):
         if isinstance(x, (list, tuple)):
-- 
2.43.0


From ec4af7b830cca70fadeec209655bb25f9fcd4e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 26/65] fix: curve arithmetic failed if one domain is a tuple
 and the other a list

---
 dcf/curves/curve.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 1470856..2e04141 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -292,17 +292,17 @@ class Curve(object):
         return self._func(x)
 
     def __add__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set(self.domain).union(other.domain))
         y_list = [self(x) + other(x) for x in x_list]
         return self.__class__(x_list, y_list, self._interpolation)
 
     def __sub__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set(self.domain).union(other.domain))
         y_list = [self(x) - other(x) for x in x_list]
         return self.__class__(x_list, y_list, self._interpolation)
 
     def __mul__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set(self.domain).union(other.domain))
         y_list = [self(x) * other(x) for x in x_list]
         return self.__class__(x_list, y_list, self._interpolation)
 
@@ -310,7 +310,7 @@ class Curve(object):
         return self.__div__(other)
 
     def __div__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set(self.domain).union(other.domain))
         if any(not other(x) for x in x_list):
             raise ZeroDivisionError("Division with %s requires on "
                                     "zero values." % other.__class__.__name__)
-- 
2.43.0


From c2979b4a58722fb6d7f22aec91d608da4a94e6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 27/65] fix: date curve arithmetic lost origin and day count
 and division always failed

---
 dcf/curves/curve.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 2e04141..d650703 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -466,29 +466,26 @@ class DateCurve(Curve):
     def __add__(self, other):
         new = super(DateCurve, self).__add__(
             other.shifted(self.origin - other.origin))
-        self.__class__(new.domain, new(new.domain), new._interpolation,
-                       self.origin, self._day_count)
-        return new
+        return self.__class__(new.domain, new(new.domain), new._interpolation,
+                              self.origin, self._day_count)
 
     def __sub__(self, other):
         new = super(DateCurve, self).__sub__(
             other.shifted(self.origin - other.origin))
-        self.__class__(new.domain, new(new.domain), new._interpolation,
-                       self.origin, self._day_count)
-        return new
+        return self.__class__(new.domain, new(new.domain), new._interpolation,
+                              self.origin, self._day_count)
 
     def __mul__(self, other):
         new = super(DateCurve, self).__mul__(
             other.shifted(self.origin - other.origin))
-        self.__class__(new.domain, new(new.domain), new._interpolation,
-                       self.origin, self._day_count)
-        return new
+        return self.__class__(new.domain, new(new.domain), new._interpolation,
+                              self.origin, self._day_count)
 
     def __div__(self, other):
         new = super(DateCurve, self).__div__(
             other.shifted(self.origin - other.origin))
-        new.origin = self.origin
-        return new
+        return self.__class__(new.domain, new(new.domain), new._interpolation,
+                              self.origin, self._day_count)
 
     def day_count(self, start, end=None):
         """ day count function to calculate a year fraction of time period
-- 
2.43.0


From 65ade44545610d9895e3b738838cf96a06790b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 28/65] fix: DateCurve build from DateCurve did not take over
 origin and day count

---
 dcf/curves/curve.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index d650703..237caba 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -424,10 +424,10 @@ class DateCurve(Curve):
         if isinstance(domain, DateCurve):
             data = domain
             domain = data.domain
-        elif isinstance(data, DateCurve):
-            interpolation = interpolation or data.kwargs.interpolation
-            origin = origin or data.kwargs.origin
-            day_count = day_count or data.kwargs.day_count
+        if isinstance(data, DateCurve):
+            interpolation = interpolation or data._interpolation
+            origin = data.origin if origin is None else origin
+            day_count = day_count or data._day_count
             data = data(domain)  # assuming data is a list of dates !
 
         self._domain = domain
-- 
2.43.0


From a41ea324d65f8e8cb24cb5f4b56eddcbadbd3805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 29/65] fix: casted rate curves changed origin and lost day
 count functions and forward tenor

---
 dcf/curves/curve.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 237caba..de82a83 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -736,8 +736,10 @@ class RateCurve(DateCurve):
             # interpolation = other.interpolation
             # interpolation = \
             #     interpolation or other.kwargs.get('interpolation', None)
-            origin = origin or other.kwargs.origin
-            day_count = day_count or other.kwargs.day_count
+            origin = other.origin if origin is None else origin
+            day_count = day_count or other._day_count
+            forward_tenor = other._forward_tenor \
+                if forward_tenor is None else forward_tenor
 
         super(RateCurve, self).__init__(
             domain, data, interpolation, origin, day_count)
-- 
2.43.0


From da7ab8c46b7eda89783ee718e251ed4300b664cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 30/65] fix: Curve build from Curve did not take over
 interpolation functions

---
 dcf/curves/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index de82a83..d9302bc 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -236,7 +236,7 @@ class Curve(object):
             domain = data.domain
         if isinstance(data, Curve):
             interpolation = \
-                interpolation or data.kwargs.get('interpolation', None)
+                interpolation or data._interpolation
             _data = data(domain)  # assuming domain is a list of dates !
             if isinstance(data, DateCurve):
                 domain = [data.day_count(d) for d in domain]
-- 
2.43.0


From d3239fbcc83eb9860155f25a92f752772c0e102a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 31/65] fix: curve kwargs gave names of functions which are not
 valid as arguments

---
 dcf/curves/curve.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index d9302bc..45ecfea 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -157,7 +157,6 @@ class Curve(object):
         for name in signature(self.__class__).parameters:
             attr = self(self.domain) if name == 'data' else None
             attr = getattr(self, '_' + name, attr)
-            attr = getattr(attr, '__name__', attr)
             if attr is not None:
                 kw[name] = attr
             setattr(kw, name, attr)
@@ -325,7 +324,8 @@ class Curve(object):
         kw = self.kwargs
         kw.pop('data')
         kw.pop('domain')
-        inner += tuple(f"{k!s}={v!r}" for k, v in kw.items())
+        inner += tuple(f"{k!s}={getattr(v, '__name__', v)!r}"
+                       for k, v in kw.items())
         s = self.__class__.__name__ + '(' + ', '.join(inner) + ')'
         return s
 
@@ -335,7 +335,8 @@ class Curve(object):
             fill = ',\n' + ' ' * (len(s) - 1)
             kw = self.kwargs
             inner = str(kw.pop('domain')), str(kw.pop('data'))
-            inner += tuple(f"{k!s}={v!r}" for k, v in kw.items())
+            inner += tuple(f"{k!s}={getattr(v, '__name__', v)!r}"
+                           for k, v in kw.items())
             s = self.__class__.__name__ + '(' + fill.join(inner) + ')'
         return s
 
-- 
2.43.0


From 22551862fb4bf35b7f7770632cfdea9df0f9e577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 32/65] fix: curve kwargs of default probability curves gave
 survival probabilities

---
 dcf/curves/creditcurve.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index de07da4..f15eba8 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -205,6 +205,10 @@ class DefaultProbabilityCurve(SurvivalProbabilityCurve):
     def _get_storage_value(curve, x):
         return curve.get_survival_prob(curve.origin, x)
 
+    @property
+    def _data(self):
+        return tuple(1. - d for d in self(self.domain))
+
     def __init__(self, domain=(), data=(), interpolation=None, origin=None,
                  day_count=None, forward_tenor=None):
         if not isinstance(data, RateCurve):
@@ -334,6 +338,10 @@ class MarginalDefaultProbabilityCurve(MarginalSurvivalProbabilityCurve):
     def _get_storage_value(curve, x):
         return curve.get_survival_prob(x, x + curve.forward_tenor)
 
+    @property
+    def _data(self):
+        return tuple(1. - d for d in self(self.domain))
+
     def __init__(self, domain=(), data=(), interpolation=None, origin=None,
                  day_count=None, forward_tenor=None):
         if not isinstance(data, RateCurve):
-- 
2.43.0


From 443fd58076cfe8d0fe5eef65aa816318b3bc4523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 33/65] fix: curve kwargs of forward curves lost extrapolation
 curves

---
 dcf/curves/curve.py | 1 +
 dcf/curves/fx.py    | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 45ecfea..5eea329 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -616,6 +616,7 @@ class ForwardCurve(DateCurve):
             yc = (lambda x: exp(-self.day_count(x) * yield_curve))
         else:
             yc = yield_curve
+        self._yield_curve = yield_curve
         self.yield_curve = yc
         """ yield curve for extrapolation using discount factors """
 
diff --git a/dcf/curves/fx.py b/dcf/curves/fx.py
index 0f81277..2cf7fde 100755
--- a/dcf/curves/fx.py
+++ b/dcf/curves/fx.py
@@ -20,6 +20,14 @@ class FxRate(Price):
 
 class FxForwardCurve(ForwardCurve):
 
+    @property
+    def _domestic_curve(self):
+        return self.domestic_curve
+
+    @property
+    def _foreign_curve(self):
+        return self.foreign_curve
+
     def __init__(self, domain=(), data=(), interpolation=None, origin=None,
                  day_count=None, domestic_curve=None, foreign_curve=None):
         """ fx rate curve for currency pair """
-- 
2.43.0


From b195544ba6ed97acdfc5e92bec7ca0d05df35c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 34/65] fix: fx container reverse pairs had curves not swapped
 and kept stale rates on re-adding

---
 dcf/curves/fx.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/dcf/curves/fx.py b/dcf/curves/fx.py
index 2cf7fde..af93dde 100755
--- a/dcf/curves/fx.py
+++ b/dcf/curves/fx.py
@@ -173,28 +173,22 @@ class FxContainer(dict):
                            foreign_curve=foreign_curve)
         self[foreign_currency, self.currency] = \
             FxForwardCurve([self.domestic_curve.origin], [1 / fx_spot],
-                           domestic_curve=self.domestic_curve,
-                           foreign_curve=foreign_curve)
+                           domestic_curve=foreign_curve,
+                           foreign_curve=self.domestic_curve)
         # _update relevant FxCurves
         f = foreign_currency
         new = dict()
         for d, s in self:
-            if s is self.currency and d is not foreign_currency:
+            if s == self.currency and d != foreign_currency:
                 triangulated = self[d, s](self.domestic_curve.origin) * fx_spot
-                if (d, f) in self:
-                    self[d, f].foreign_curve = foreign_curve
-                    self[d, f].fx_spot = triangulated
-                    self[f, d].domestic_curve = foreign_curve
-                    self[f, d].fx_spot = 1 / triangulated
-                else:
-                    new[d, f] = FxForwardCurve(
-                        [self.domestic_curve.origin], [triangulated],
-                        domestic_curve=self[d, s].domestic_curve,
-                        foreign_curve=foreign_curve)
-                    new[f, d] = FxForwardCurve(
-                        [self.domestic_curve.origin], [1 / triangulated],
-                        domestic_curve=foreign_curve,
-                        foreign_curve=self[d, s].domestic_curve)
+                new[d, f] = FxForwardCurve(
+                    [self.domestic_curve.origin], [triangulated],
+                    domestic_curve=self[d, s].domestic_curve,
+                    foreign_curve=foreign_curve)
+                new[f, d] = FxForwardCurve(
+                    [self.domestic_curve.origin], [1 / triangulated],
+                    domestic_curve=foreign_curve,
+                    foreign_curve=self[d, s].domestic_curve)
         self.update(new)
 
     def get_forward_price(self, domestic_currency, foreign_currency,
-- 
2.43.0


From 499d6f44b72ac24907a4030ea98b7f2283507a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 35/65] fix: casting to an explicit forward tenor stored rates
 of the tenor of the source curve

---
 dcf/curves/creditcurve.py       | 10 ++++------
 dcf/curves/curve.py             |  2 ++
 dcf/curves/interestratecurve.py |  5 ++---
 3 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index f15eba8..8ae378a 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -284,9 +284,8 @@ class MarginalSurvivalProbabilityCurve(ProbabilityCurve):
     """
     _INTERPOLATION = log_linear_scheme
 
-    @staticmethod
-    def _get_storage_value(curve, x):
-        return curve.get_survival_prob(x, x + curve.forward_tenor)
+    def _get_storage_value(self, curve, x):
+        return curve.get_survival_prob(x, x + self.forward_tenor)
 
     def _get_compounding_factor(self, start, stop):
         if start == stop:
@@ -334,9 +333,8 @@ class MarginalDefaultProbabilityCurve(MarginalSurvivalProbabilityCurve):
     """
     _INTERPOLATION = log_linear_scheme
 
-    @staticmethod
-    def _get_storage_value(curve, x):
-        return curve.get_survival_prob(x, x + curve.forward_tenor)
+    def _get_storage_value(self, curve, x):
+        return curve.get_survival_prob(x, x + self.forward_tenor)
 
     @property
     def _data(self):
diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 5eea329..176c22e 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -732,6 +732,8 @@ class RateCurve(DateCurve):
             domain = other.domain if domain is None else domain
         if other:
             # get data as self._get_storage_value
+            self._forward_tenor = other._forward_tenor \
+                if forward_tenor is None else forward_tenor
             data = [self._get_storage_value(other, x) for x in domain]
             # use other properties if not give explicitly
             # interpolation should default to class defaults
diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index 1b0630c..fb76e69 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -391,9 +391,8 @@ class CashRateCurve(InterestRateCurve):
 
     """
 
-    @staticmethod
-    def _get_storage_value(curve, x):
-        return curve.get_cash_rate(x)
+    def _get_storage_value(self, curve, x):
+        return curve.get_cash_rate(x, step=self.forward_tenor)
 
     def __init__(self, domain=(), data=(), interpolation=None, origin=None,
                  day_count=None, forward_tenor=None):
-- 
2.43.0


From 869ac094d93bb8393f6e86d779930464c30e140a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 36/65] fix: Black76 vega used the wrong density

---
 dcf/models/black76.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/models/black76.py b/dcf/models/black76.py
index 9b9f833..8cb9319 100644
--- a/dcf/models/black76.py
+++ b/dcf/models/black76.py
@@ -68,7 +68,7 @@ class LogNormalOptionPayOffModel(OptionPayOffModel):
     def _call_vega(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (log(forward / strike) + (vol ** 2 / 2)) / vol
-        return forward * sqrt(time) * normal_pdf(d - vol)
+        return forward * sqrt(time) * normal_pdf(d)
 
 
 class BinaryLogNormalOptionPayOffModel(OptionPayOffModel):
-- 
2.43.0


From 41e5b006fc69c998d32557d7c8a2e687ceed4100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 37/65] fix: Black76 binary call price was not the exercise
 probability and its vega not the derivative

---
 dcf/models/black76.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dcf/models/black76.py b/dcf/models/black76.py
index 8cb9319..0988f03 100644
--- a/dcf/models/black76.py
+++ b/dcf/models/black76.py
@@ -89,21 +89,21 @@ class BinaryLogNormalOptionPayOffModel(OptionPayOffModel):
 
     Then
 
-        * call price: $$\Phi(d)$$
+        * call price: $$\Phi(d-\sigma \cdot \sqrt{\tau})$$
 
         * call delta:
-          $$\frac{\phi(d-\sigma \cdot \sqrt{\tau})}{\sigma \cdot \sqrt{\tau}}$$
+          $$\frac{\phi(d-\sigma \cdot \sqrt{\tau})}
+          {F \cdot \sigma \cdot \sqrt{\tau}}$$
 
-        * call gamma: $$d \cdot \frac{\phi(d)}{\sigma^2 \cdot \tau}$$
-
-        * call vega: $$(d/\sigma - \sqrt{\tau}) \cdot \phi(d)$$
+        * call vega:
+          $$-\frac{d}{\sigma} \cdot \phi(d-\sigma \cdot \sqrt{\tau})$$
 
     """
 
     def _call_price(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (log(forward / strike) + (vol ** 2 / 2)) / vol
-        return normal_cdf(d)
+        return normal_cdf(d - vol)
 
     def _call_delta(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
@@ -118,4 +118,4 @@ class BinaryLogNormalOptionPayOffModel(OptionPayOffModel):
     def _call_vega(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (log(forward / strike) + (vol ** 2 / 2)) / vol
-        return (d - vol) * normal_pdf(d) / volatility
+        return -d * normal_pdf(d - vol) / volatility
-- 
2.43.0


From 0241b396b6183a41bacdc5f000f06c4ae433e5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 38/65] fix: Bachelier binary call gamma and vega were not
 derivatives of the price

---
 dcf/models/bachelier.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dcf/models/bachelier.py b/dcf/models/bachelier.py
index f6b3222..618bc67 100644
--- a/dcf/models/bachelier.py
+++ b/dcf/models/bachelier.py
@@ -88,9 +88,9 @@ class BinaryNormalOptionPayOffModel(OptionPayOffModel):
 
         * call delta: $$\frac{\phi(d)}{\sigma \cdot \sqrt{\tau}}$$
 
-        * call gamma: $$d \cdot \frac{\phi(d)}{\sigma^2 \cdot \tau}$$
+        * call gamma: $$-d \cdot \frac{\phi(d)}{\sigma^2 \cdot \tau}$$
 
-        * call vega: $$\sqrt{\tau} \cdot \phi(d)$$
+        * call vega: $$-\frac{d}{\sigma} \cdot \phi(d)$$
 
     """
 
@@ -107,9 +107,9 @@ class BinaryNormalOptionPayOffModel(OptionPayOffModel):
     def _call_gamma(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (forward - strike) / vol
-        return d * normal_pdf(d) / (vol * vol * time)
+        return -d * normal_pdf(d) / (vol * vol)
 
     def _call_vega(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (forward - strike) / vol
-        return sqrt(time) * normal_pdf(d)
+        return -d * normal_pdf(d) / volatility
-- 
2.43.0


From f3fb275fbafdad2cfc19ced50547a266624cca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 39/65] fix: displaced binary call greeks ignored the
 displacement

---
 dcf/models/displaced.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/dcf/models/displaced.py b/dcf/models/displaced.py
index 73663fa..21821fd 100644
--- a/dcf/models/displaced.py
+++ b/dcf/models/displaced.py
@@ -113,3 +113,21 @@ class BinaryDisplacedLogNormalOptionPayOffModel(BinaryLogNormalOptionPayOffModel
                                    strike + self.displacement,
                                    forward + self.displacement,
                                    volatility)
+
+    def _call_delta(self, time, strike, forward, volatility):
+        return super()._call_delta(time,
+                                   strike + self.displacement,
+                                   forward + self.displacement,
+                                   volatility)
+
+    def _call_gamma(self, time, strike, forward, volatility):
+        return super()._call_gamma(time,
+                                   strike + self.displacement,
+                                   forward + self.displacement,
+                                   volatility)
+
+    def _call_vega(self, time, strike, forward, volatility):
+        return super()._call_vega(time,
+                                  strike + self.displacement,
+                                  forward + self.displacement,
+                                  volatility)
-- 
2.43.0


From 9cc949ec30ad69aeb84470a01ed8ed61f059ac03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 40/65] fix: products on dates other than business dates did
 not end or failed

---
 dcf/cashflows/products.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index a60546c..2766949 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -39,12 +39,12 @@ def _interest_payment_dates(
     else:
         payment_date_list = [end_date]
         cnt = 1
-        while start_date + period <= payment_date_list[0]:
+        while start_date + period < payment_date_list[-1]:
             payment_date_list.append(end_date - period * cnt)
             cnt += 1
         payment_date_list.reverse()
         for d in payment_date_list:
-            if hasattr('adjust', d):
+            if hasattr(d, 'adjust'):
                 d.adjust(convention, holidays)
         return payment_date_list
 
-- 
2.43.0


From 2efa7ff3674e996eba76c6a8e506f3c83d968b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 41/65] fix: fixings of forward curves were ignored after the
 last given date

---
 dcf/curves/curve.py | 2 +-
 dcf/curves/fx.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 176c22e..5b7136a 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -636,7 +636,7 @@ class ForwardCurve(DateCurve):
         :return: asset forward price at **value_date**
         """
         last_date = max(self.domain)
-        if value_date <= last_date:
+        if value_date <= last_date or value_date in self.fixings:
             return super().__call__(value_date)
         last_price = super().__call__(last_date)
         if self.yield_curve is None:
diff --git a/dcf/curves/fx.py b/dcf/curves/fx.py
index af93dde..059c5c5 100755
--- a/dcf/curves/fx.py
+++ b/dcf/curves/fx.py
@@ -37,7 +37,7 @@ class FxForwardCurve(ForwardCurve):
 
     def get_forward_price(self, value_date):
         last_date = max(self.domain)
-        if value_date <= last_date:
+        if value_date <= last_date or value_date in self.fixings:
             return super().get_forward_price(value_date)
         else:
             y = super().get_forward_price(last_date)
-- 
2.43.0


From 3097ece3a96023d144336e990f853c9ed2df0600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 42/65] fix: arithmetic of rate curves lost the interpolation
 and added points to the domain

---
 dcf/curves/curve.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 5b7136a..817fe8c 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -352,7 +352,7 @@ class Curve(object):
             x_list = self.domain
         # y_list = self(self.domain)
         # return self.__class__(x_list, y_list, self.interpolation)
-        return self.__class__(x_list, self)
+        return self.__class__(x_list, self, self._interpolation)
 
 
 class DateCurve(Curve):
@@ -756,21 +756,30 @@ class RateCurve(DateCurve):
         s = self._spread(x) if self._spread else 0.0
         return super().__call__(x) + s
 
+    def _cast_other(self, other):
+        # only other curve types have to be casted
+        return other if isinstance(other, self.__class__) \
+            else self.__class__(other)
+
     def __add__(self, other):
-        new = super(RateCurve, self).__add__(self.__class__(other))
-        return self.__class__(new, forward_tenor=self._forward_tenor)
+        new = super(RateCurve, self).__add__(self._cast_other(other))
+        new._forward_tenor = self._forward_tenor
+        return new
 
     def __sub__(self, other):
-        new = super(RateCurve, self).__sub__(self.__class__(other))
-        return self.__class__(new, forward_tenor=self._forward_tenor)
+        new = super(RateCurve, self).__sub__(self._cast_other(other))
+        new._forward_tenor = self._forward_tenor
+        return new
 
     def __mul__(self, other):
-        new = super(RateCurve, self).__mul__(self.__class__(other))
-        return self.__class__(new, forward_tenor=self._forward_tenor)
+        new = super(RateCurve, self).__mul__(self._cast_other(other))
+        new._forward_tenor = self._forward_tenor
+        return new
 
     def __div__(self, other):
-        new = super(RateCurve, self).__div__(self.__class__(other))
-        return self.__class__(new, forward_tenor=self._forward_tenor)
+        new = super(RateCurve, self).__div__(self._cast_other(other))
+        new._forward_tenor = self._forward_tenor
+        return new
 
     def _get_compounding_factor(self, start, stop):
         # aka discount factor
-- 
2.43.0


From 8711d98ab88ba536fdd08f1a0d4f8c16116b144f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 43/65] fix: terminal volatility of instantaneous volatility
 curves averaged volatility instead of variance

---
 dcf/curves/curve.py           | 12 ++++++++----
 dcf/curves/volatilitycurve.py |  3 ++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 817fe8c..5c096ef 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -514,11 +514,13 @@ class DateCurve(Curve):
         warn(msg)
         return Curve(self)
 
-    def integrate(self, start, stop):
+    def integrate(self, start, stop, func=None):
         r""" integrates curve and returns results as annualized rates
 
         :param start: lower integration boundary
         :param stop: upper integration boundary
+        :param func: (optional) function applied to the curve values
+            before integration, e.g. for squared values
         :return: (float) integral value$
 
         If $\gamma$ is this the curve. **integrate** returns
@@ -537,16 +539,18 @@ class DateCurve(Curve):
             s = self.day_count(start)
             e = self.day_count(stop)
             f = super(DateCurve, self).__call__
-            value, *_ = quad(f, s, e)
+            g = f if func is None else (lambda x: func(f(x)))
+            value, *_ = quad(g, s, e)
         except ImportError:
+            f = self if func is None else (lambda x: func(self(x)))
             value = 0.0
             step = self._TIME_SHIFT
             current = start
             while current + step < stop:
-                value += self(current) * \
+                value += f(current) * \
                          self.day_count(current, current + step)
                 current += step
-            value += self(current) * self.day_count(current, stop)
+            value += f(current) * self.day_count(current, stop)
         result = value / self.day_count(start, stop)
         return result
 
diff --git a/dcf/curves/volatilitycurve.py b/dcf/curves/volatilitycurve.py
index fa191b3..2127c84 100644
--- a/dcf/curves/volatilitycurve.py
+++ b/dcf/curves/volatilitycurve.py
@@ -66,7 +66,8 @@ class InstantaneousVolatilityCurve(VolatilityCurve):
             return self(start)
         if start > stop:
             return 0.0
-        return self.integrate(start, stop)
+        # volatility accumulates by variance
+        return sqrt(self.integrate(start, stop, lambda v: v * v))
 
 
 class TerminalVolatilityCurve(VolatilityCurve):
-- 
2.43.0


From f63b7a9e7fa27fff4f7ca579f26b63cf882431bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 44/65] fix: tables of contingent and leg lists showed zero
 cashflows

---
 dcf/cashflows/cashflow.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 91f19ea..98fe647 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -31,11 +31,12 @@ class CashFlowList(object):
         for d in self.domain:
             payoff = self._flows.get(d, 0.)
             if hasattr(payoff, 'details'):
-                fwd = getattr(self, 'forward_curve', None)
-                details = payoff.details(fwd)
+                model = getattr(self, 'forward_curve', None)
+                model = getattr(self, 'payoff_model', model)
+                details = payoff.details(model)
                 details['pay date'] = d
             else:
-                details = {'cashflow': float(payoff), 'pay date': d}
+                details = {'cashflow': float(self[d]), 'pay date': d}
             for k in self.__class__._cashflow_details:
                 if k in details and k not in header:
                     header.append(k)
-- 
2.43.0


From eb1fbb74a5782fd8afefcc009ddd05f2cf9e45ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 45/65] fix: contingent rate cashflows failed for models with
 zero or no forward curve

---
 dcf/cashflows/payoffs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dcf/cashflows/payoffs.py b/dcf/cashflows/payoffs.py
index 3d9ae4c..e3bd4ec 100644
--- a/dcf/cashflows/payoffs.py
+++ b/dcf/cashflows/payoffs.py
@@ -390,7 +390,9 @@ class ContingentRateCashFlowPayOff(RateCashFlowPayOff):
         details = super().details(forward_curve)
         floorlet = caplet = 0.0
         if isinstance(model, OptionPayOffModel):
-            fixing_date = details['fixing date']
+            fixing_date = self.start
+            if self.fixing_offset:
+                fixing_date -= self.fixing_offset
             yf = details['year fraction']
             amount = details['notional']
             cf = details['cashflow']
-- 
2.43.0


From 2279ddf6278ca57583e9faacaed011b409982c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 46/65] fix: FixedCashFlowList built from a list dropped an
 origin of zero

---
 dcf/cashflows/cashflow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 98fe647..1b11fca 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -269,7 +269,8 @@ class FixedCashFlowList(CashFlowList):
 
         if isinstance(payment_date_list, CashFlowList):
             amount_list = payment_date_list[payment_date_list.domain]
-            origin = origin or getattr(payment_date_list, '_origin', None)
+            if origin is None:
+                origin = getattr(payment_date_list, '_origin', None)
             payment_date_list = payment_date_list.domain
 
         if isinstance(amount_list, (int, float)):
-- 
2.43.0


From 4ca61368cda48bd92b182310b2dbb8c1d1676471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:31 +0000
Subject: [PATCH 47/65] fix: get_curve_fit left a spread on the curve when a
 curve function failed while preparing or reading the fit

---
 dcf/pricer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index e439567..205b29f 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -731,9 +731,10 @@ def get_curve_fit(cashflow_list, discount_curve, valuation_date=None,
         fitting_curve.domain if fitting_grid is None else fitting_grid
 
     # copy fitting_curve but set al values to 0.0
-    fitting_curve.spread = fitting_curve.__class__(fitting_grid, fitting_curve)
-    for d in fitting_curve.spread.domain:
-        fitting_curve.spread[d] = 0.0
+    spread = fitting_curve.__class__(fitting_grid, fitting_curve)
+    for d in spread.domain:
+        spread[d] = 0.0
+    fitting_curve.spread = spread
 
     pp_list = tuple(zip(cashflow_list, present_value))
     for d in fitting_curve.spread.domain:
@@ -757,6 +758,8 @@ def get_curve_fit(cashflow_list, discount_curve, valuation_date=None,
             fitting_curve.spread = None
             raise
 
-    data = fitting_curve(fitting_curve.spread.domain)
-    fitting_curve.spread = None
+    try:
+        data = fitting_curve(fitting_curve.spread.domain)
+    finally:
+        fitting_curve.spread = None
     return data
-- 
2.43.0


From 6912ea89d6b3f6de82470d4eff5dcd8c2c7e2d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 48/65] fix: interest_rate_swap failed for business dates with
 its default holidays

---
 dcf/cashflows/products.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index 2766949..b0f09c5 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -129,7 +129,7 @@ def interest_rate_swap(start_date=TODAY,
                        end_date=TODAY + MATURITY,
                        period=BOND_TENOR,
                        convention='mod_follow',
-                       holidays='target',
+                       holidays=None,
                        notional_amount=1.0,
                        day_count='thirty360',
                        fixed_rate=0.0,
-- 
2.43.0


From 0828f6dcdd4f7c49bc6c38c13412bad85aaf45bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 49/65] fix: default grid of rate_table for unsorted domains
 (did not terminate)

---
 dcf/curves/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 5c096ef..fd4718d 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -73,9 +73,9 @@ def rate_table(curve, x_grid=None, y_grid=None):
 
     """  # noqa: E501
     if x_grid is None:
-        x_grid = list(curve.domain)
+        x_grid = sorted(curve.domain)
         if curve.origin not in x_grid:
-            x_grid = [curve.origin] + x_grid
+            x_grid = sorted([curve.origin] + x_grid)
     if y_grid is None:
         diff = list(e-s for s, e in zip(x_grid[:-1], x_grid[1:]))
         step = diff[0]
-- 
2.43.0


From f9705a45e6d7ec7ee489902480a15bea067e9527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 50/65] fix: table of curves without origin

---
 dcf/curves/curve.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index fd4718d..919c756 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -74,8 +74,9 @@ def rate_table(curve, x_grid=None, y_grid=None):
     """  # noqa: E501
     if x_grid is None:
         x_grid = sorted(curve.domain)
-        if curve.origin not in x_grid:
-            x_grid = sorted([curve.origin] + x_grid)
+        origin = getattr(curve, 'origin', None)
+        if origin is not None and origin not in x_grid:
+            x_grid = sorted([origin] + x_grid)
     if y_grid is None:
         diff = list(e-s for s, e in zip(x_grid[:-1], x_grid[1:]))
         step = diff[0]
-- 
2.43.0


From bf57c51b38c5acf99db6a55568caf26456bbb8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 51/65] fix: OptionPricingFormula.from_function (bases of new
 type have to be a tuple)

---
 dcf/models/optionpricing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 921690b..ef565ef 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -71,7 +71,7 @@ class OptionPricingFormula(object):
         """
         if name is None:
             name = func.__name__ + cls.__name__
-        return type(name, cls, {'__call__': func})
+        return type(name, (cls,), {'__call__': func})
 
     def __call__(self, time, strike, forward, volatility):
         return self._call_price(time, strike, forward, volatility)
-- 
2.43.0


From 077a1c03ff2adc9cc696b4f59671d8ee81a3722f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 52/65] fix: forward value of zero in option payoff models

---
 dcf/models/optionpricing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index ef565ef..51b126d 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -203,7 +203,7 @@ class OptionPayOffModel(OptionPricingFormula):
         """
         details = {'valuation date': self.valuation_date}
         forward = 0.0
-        if self.forward_curve:
+        if self.forward_curve is not None:
             if hasattr(self.forward_curve, 'get_forward_price'):
                 forward = self.forward_curve.get_forward_price(date)
             elif hasattr(self.forward_curve, 'get_cash_rate'):
-- 
2.43.0


From c1301dff440e7fc572564f15498dedd30119b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 53/65] fix: own parameters of zero in BinaryOptionPayOffModel

---
 dcf/models/optionpricing.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 51b126d..0530ab9 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -482,11 +482,14 @@ class BinaryOptionPayOffModel(OptionPayOffModel):
         self._strike_shift = self.__class__.STRIKE_SHIFT \
             if strike_shift is None else strike_shift
         if isinstance(pricing_formula, OptionPayOffModel):
-            valuation_date = valuation_date or pricing_formula.valuation_date
-            forward_curve = forward_curve or pricing_formula.forward_curve
-            volatility_curve = volatility_curve \
-                or pricing_formula.volatility_curve
-            day_count = day_count or pricing_formula.day_count
+            if valuation_date is None:
+                valuation_date = pricing_formula.valuation_date
+            if forward_curve is None:
+                forward_curve = pricing_formula.forward_curve
+            if volatility_curve is None:
+                volatility_curve = pricing_formula.volatility_curve
+            if day_count is None:
+                day_count = pricing_formula.day_count
         super().__init__(valuation_date, forward_curve, volatility_curve,
                          day_count, bump_greeks=True)
 
-- 
2.43.0


From fa4562bd36048438ec0d3a944ca28115074fabbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 54/65] fix: valuation date in tables of contingent rate
 cashflows

---
 dcf/cashflows/contingent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index bf6676d..daddded 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -208,7 +208,7 @@ class ContingentRateCashFlowList(ContingentCashFlowList):
         'fixed rate', 'forward rate', 'fixing date', 'tenor', \
         'floorlet', 'floorlet strike', 'floorlet volatility', \
         'caplet', 'caplet strike', 'caplet volatility', \
-        'time to expiry', 'model valuation date'
+        'time to expiry', 'valuation date'
 
     def __init__(self, payment_date_list, amount_list=DEFAULT_AMOUNT,
                  origin=None, day_count=None,
-- 
2.43.0


From aab1f8134ed639d2ab3af5993b1bca86cdb6736e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 55/65] fix: expiry date in tables of option strategies

---
 dcf/cashflows/payoffs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dcf/cashflows/payoffs.py b/dcf/cashflows/payoffs.py
index e3bd4ec..4ffad6d 100644
--- a/dcf/cashflows/payoffs.py
+++ b/dcf/cashflows/payoffs.py
@@ -284,6 +284,7 @@ class OptionStrategyCashFlowPayOff(CashFlowPayOff):
         if isinstance(call_amount_list, (int, float)):
             call_amount_list = [call_amount_list] * len(call_strike_list)
 
+        self.expiry = expiry
         self._options = list()
         cls = OptionCashFlowPayOff
         for amount, strike in zip(put_amount_list, put_strike_list):
@@ -297,7 +298,8 @@ class OptionStrategyCashFlowPayOff(CashFlowPayOff):
 
     def details(self, model=None):
         details = {
-            'cashflow': 0.0
+            'cashflow': 0.0,
+            'expiry date': self.expiry
         }
         cf = 0.0
         for i, option in enumerate(self._options):
-- 
2.43.0


From 680f1ea852620beca7d964a30f2732e155e5a338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 56/65] fix: empty rate cashflow lists without origin raised
 UnboundLocalError

---
 dcf/cashflows/cashflow.py   | 2 +-
 dcf/cashflows/contingent.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 1b11fca..49303d5 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -337,7 +337,7 @@ class RateCashFlowList(CashFlowList):
             step = payment_date_list[1] - payment_date_list[0]
             start_dates = [payment_date_list[0] - step]
             start_dates.extend(payment_date_list[:-1])
-        elif payment_date_list:
+        else:
             start_dates = payment_date_list
 
         payoff_list = list()
diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index daddded..b6e2038 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -253,7 +253,7 @@ class ContingentRateCashFlowList(ContingentCashFlowList):
             step = payment_date_list[1] - payment_date_list[0]
             start_dates = [payment_date_list[0] - step]
             start_dates.extend(payment_date_list[:-1])
-        elif payment_date_list:
+        else:
             start_dates = payment_date_list
 
         payoff_list = list()
-- 
2.43.0


From 6983229b2df39725f05fa1a72b3d62f122163dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 57/65] fix: leg lists changed with the list of legs they were
 given

---
 dcf/cashflows/cashflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 49303d5..c3e7a9a 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -217,7 +217,7 @@ class CashFlowLegList(CashFlowList):
                 cls = self.__class__.__name__, leg.__class__.__name__
                 raise ValueError("Legs %s of can be either `CashFlowList` "
                                  "or `RateCashFlowList` but not %s." % cls)
-        self._legs = legs
+        self._legs = list(legs)
         domains = tuple(tuple(leg.domain) for leg in self._legs)
         domain = list(sorted(set().union(*domains)))
         origin = min(leg.origin for leg in self._legs)
-- 
2.43.0


From e4367f83d3ca3c7161afda3add021a267560d5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 58/65] fix: leg lists without legs or with an empty leg raised
 errors

---
 dcf/cashflows/cashflow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index c3e7a9a..b9fb4fa 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -220,7 +220,8 @@ class CashFlowLegList(CashFlowList):
         self._legs = list(legs)
         domains = tuple(tuple(leg.domain) for leg in self._legs)
         domain = list(sorted(set().union(*domains)))
-        origin = min(leg.origin for leg in self._legs)
+        origin = min((leg.origin for leg in self._legs
+                      if leg.origin is not None), default=None)
         super().__init__(domain, [0] * len(domain), origin=origin)
 
     def __getitem__(self, item):
-- 
2.43.0


From f017d289204d9a10568260a716386784c6b4a2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:13 +0000
Subject: [PATCH 59/65] fix: integer spot prices, fx rates and yields of
 forward curves raised errors

---
 dcf/curves/curve.py | 4 ++--
 dcf/curves/fx.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 919c756..86e4eb1 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -607,7 +607,7 @@ class ForwardCurve(DateCurve):
 
         """
         if not data:
-            if isinstance(domain, float):
+            if isinstance(domain, (int, float)):
                 # build lists from single spot price value
                 data = [domain]
                 domain = [origin]
@@ -617,7 +617,7 @@ class ForwardCurve(DateCurve):
                 data = [domain.value]
                 domain = [domain.origin]
         super().__init__(domain, data, interpolation, origin, day_count)
-        if isinstance(yield_curve, float) and self.origin is not None:
+        if isinstance(yield_curve, (int, float)) and self.origin is not None:
             yc = (lambda x: exp(-self.day_count(x) * yield_curve))
         else:
             yc = yield_curve
diff --git a/dcf/curves/fx.py b/dcf/curves/fx.py
index 059c5c5..8ea7ca0 100755
--- a/dcf/curves/fx.py
+++ b/dcf/curves/fx.py
@@ -61,7 +61,7 @@ class FxCurveX(ForwardCurve):
                 raise AssertionError()
             origin = self.domestic_curve.origin
         if data is None:
-            if isinstance(domain, float):
+            if isinstance(domain, (int, float)):
                 # build lists from single spot fx rate
                 data = [domain]
                 domain = [origin]
@@ -163,7 +163,7 @@ class FxContainer(dict):
         """
         if not (isinstance(foreign_currency, type(self.currency))
                 and isinstance(foreign_curve, RateCurve)
-                and isinstance(fx_spot, float)):
+                and isinstance(fx_spot, (int, float))):
             raise AssertionError()
 
         # create missing FxCurves
-- 
2.43.0


From 99eff973cc2c0a7c890d0c2caee27676a79127ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:27 +0000
Subject: [PATCH 60/65] fix: survival probability beyond default divided by
 zero

---
 dcf/curves/creditcurve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index 8ae378a..342d46f 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -181,6 +181,8 @@ class SurvivalProbabilityCurve(ProbabilityCurve):
             return self(stop)
         if start == stop:
             return 1. if 2 * float_info.min <= self(start) else 0.
+        if not self(start):
+            return 0.
         return self(stop) / self(start)
 
     def _get_compounding_rate(self, start, stop):
-- 
2.43.0


From dc9b7bf8accd5f6150b1935921210882ece0d9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:27 +0000
Subject: [PATCH 61/65] fix: bond with end date given as period failed for
 bullet notionals

---
 dcf/cashflows/products.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index b0f09c5..4a70c5b 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -85,6 +85,9 @@ def bond(start_date=TODAY,
 
     if isinstance(notional_amount, (int, float)):
         # case bullet loan
+        if bd and isinstance(start_date, bd.BusinessDate):
+            if bd.BusinessPeriod.is_businessperiod(end_date):
+                end_date = start_date + bd.BusinessPeriod(end_date)
         notional_payment_date_list = start_date, end_date
         notional_amount_list = -notional_amount, notional_amount
         interest_notional_amount_list = \
-- 
2.43.0


From 3a047a246789db6ea2809258fbcca1fd7bb3f6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:14 +0000
Subject: [PATCH 62/65] fix: discount factors and survival probabilities
 depended on the identity of the origin date

---
 dcf/curves/creditcurve.py       | 6 ++++--
 dcf/curves/interestratecurve.py | 6 +++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index 342d46f..e7f50ba 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -177,12 +177,14 @@ class SurvivalProbabilityCurve(ProbabilityCurve):
         return curve.get_survival_prob(curve.origin, x)
 
     def _get_compounding_factor(self, start, stop):
-        if start is self.origin:
-            return self(stop)
         if start == stop:
             return 1. if 2 * float_info.min <= self(start) else 0.
+        if start == self.origin:
+            return self(stop)
         if not self(start):
             return 0.
+        if stop == self.origin:
+            return 1. / self(start)
         return self(stop) / self(start)
 
     def _get_compounding_rate(self, start, stop):
diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index fb76e69..e8f65c0 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -312,8 +312,12 @@ class DiscountFactorCurve(InterestRateCurve):
                                                   forward_tenor)
 
     def _get_compounding_factor(self, start, stop):
-        if start is self.origin:
+        if start == stop:
+            return 1.
+        if start == self.origin:
             return self(stop)
+        if stop == self.origin:
+            return 1. / self(start)
         return self(stop) / self(start)
 
     def _get_compounding_rate(self, start, stop):
-- 
2.43.0


From fcc422896f797cd4d22d31ba46b2f910e15af6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:19 +0000
Subject: [PATCH 63/65] fix: integrate ignored the spread of rate curves, so
 did terminal volatilities of instantaneous volatility curves

---
 dcf/curves/curve.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 86e4eb1..e218194 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -539,10 +539,10 @@ class DateCurve(Curve):
             # raise ImportError()
             s = self.day_count(start)
             e = self.day_count(stop)
-            f = super(DateCurve, self).__call__
+            f = self._integrand(start, stop)
             g = f if func is None else (lambda x: func(f(x)))
             value, *_ = quad(g, s, e)
-        except ImportError:
+        except (ImportError, NotImplementedError):
             f = self if func is None else (lambda x: func(self(x)))
             value = 0.0
             step = self._TIME_SHIFT
@@ -555,6 +555,10 @@ class DateCurve(Curve):
         result = value / self.day_count(start, stop)
         return result
 
+    def _integrand(self, start, stop):
+        # curve as function of year fractions
+        return super(DateCurve, self).__call__
+
     def derivative(self, start):
         r""" calculates numericaly the first derivative
 
@@ -761,6 +765,18 @@ class RateCurve(DateCurve):
         s = self._spread(x) if self._spread else 0.0
         return super().__call__(x) + s
 
+    def _integrand(self, start, stop):
+        f = super()._integrand(start, stop)
+        if not self._spread or start == stop:
+            return f
+        if not isinstance(self._spread, DateCurve):
+            raise NotImplementedError()
+        # add spread at same dates which may have other year fractions
+        g = self._spread._integrand(start, stop)
+        s, t = self.day_count(start), self._spread.day_count(start)
+        q = self._spread.day_count(start, stop) / self.day_count(start, stop)
+        return lambda x: f(x) + g(t + (x - s) * q)
+
     def _cast_other(self, other):
         # only other curve types have to be casted
         return other if isinstance(other, self.__class__) \
-- 
2.43.0


From a09f8498798171778f8b7de143dfbdbb15ac39cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:20 +0000
Subject: [PATCH 64/65] fix: float periods such as 1/12 gave an extra stub
 period by rounding

---
 dcf/cashflows/products.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index 4a70c5b..2a2e562 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -39,7 +39,9 @@ def _interest_payment_dates(
     else:
         payment_date_list = [end_date]
         cnt = 1
-        while start_date + period < payment_date_list[-1]:
+        # no extra stub period just by rounding of floats
+        eps = period * 1e-9
+        while start_date + period + eps < payment_date_list[-1]:
             payment_date_list.append(end_date - period * cnt)
             cnt += 1
         payment_date_list.reverse()
-- 
2.43.0


From 4310788c6f368ce71df6bb0b49a1b3edc70d6585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:07 +0000
Subject: [PATCH 65/65] fix: rating classes given by key raised TypeError on
 master scales with whole number probabilities

---
 dcf/ratingclass.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dcf/ratingclass.py b/dcf/ratingclass.py
index 50db309..8aab015 100644
--- a/dcf/ratingclass.py
+++ b/dcf/ratingclass.py
@@ -59,7 +59,7 @@ class RatingClass(object):
                 (k, float(v)) for k, v in sorted(i, key=lambda x: x[1]))
 
         def get(self, k, d=None):
-            return RatingClass(self[k], self) if k in self else d
+            return RatingClass(float(self[k]), self) if k in self else d
 
         def __repr__(self):
             return self.__class__.__name__ + '(' + str(self)[1:-1] + ')'
@@ -92,7 +92,8 @@ class RatingClass(object):
                 masterscale = self.__class__.master_scale.fromkeys(masterscale)
 
         if masterscale:
-            value = masterscale[value] if value in masterscale else value
+            value = float(masterscale[value]) \
+                if value in masterscale else value
 
         if not isinstance(value, float):
             raise TypeError(
-- 
2.43.0

