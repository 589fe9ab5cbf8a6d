From 36d40cc14378ffd6537d64f35f28508da3abf8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 01/72] fix: day count of timestamps agrees with dates at
 midnight and is zero over an empty interval

Accruals between timestamps pooled the start and end days, so ACT/ACT and 30/360 differed between dates and
midnight timestamps and a zero-length 30/360 interval could have a non-zero accrual.
---
 .../scheduling_tools/day_count_calculator.py  | 50 ++++++++++---------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/day_count_calculator.py b/fixedIncome/src/scheduling_tools/day_count_calculator.py
index fd71f73..2a8f103 100644
--- a/fixedIncome/src/scheduling_tools/day_count_calculator.py
+++ b/fixedIncome/src/scheduling_tools/day_count_calculator.py
@@ -15,6 +15,14 @@ class DayCountCalculator(object):
         total_seconds = time_delta.total_seconds()
         return total_seconds / DayCountCalculator.SECONDS_PER_YEAR
 
+    @staticmethod
+    def _split_into_day_and_fraction(date_obj: date | datetime) -> tuple[date, float]:
+        """ Splits a date or datetime into its calendar day and the elapsed fraction of that day. """
+        if type(date_obj) != datetime:
+            return date_obj, 0.0
+        elapsed = date_obj - datetime.combine(date_obj.date(), time(0))
+        return date_obj.date(), elapsed.total_seconds() / DayCountCalculator.SECONDS_PER_DAY
+
     @staticmethod
     def include_datetimes(date_count_function) -> Callable[[date | datetime], float]:
         """
@@ -29,29 +37,25 @@ class DayCountCalculator(object):
                 return date_count_function(start_datetime, end_datetime)
 
             else:
-                start_outer_date = start_datetime.date() if type(start_datetime) == datetime else start_datetime
-                end_outer_date = end_datetime.date() + timedelta(1) if type(end_datetime) == datetime else end_datetime
-                start_inner_date = start_datetime.date() + timedelta(1) if type(start_datetime) == datetime else start_datetime
-                end_inner_date = end_datetime.date() if type(end_datetime) == datetime else end_datetime
-
-                start_datetime = start_datetime if type(start_datetime) == datetime else datetime.combine(start_datetime, time(0))
-                end_datetime = end_datetime if type(end_datetime) == datetime else datetime.combine(end_datetime,
-                                                                                                        time(0))
-
-                inner_accrual = date_count_function(start_inner_date, end_inner_date)
-                outer_accrual = date_count_function(start_outer_date, end_outer_date)
-
-                accrual_difference = outer_accrual - inner_accrual  # this is the time which be
-                                                                    # allocated to each timestamp proportionally
-
-                start_timedelta_seconds = (datetime.combine(start_inner_date, time(0)) - start_datetime).total_seconds()
-                start_inter_outer_width_seconds = (start_inner_date - start_outer_date).total_seconds()
-                end_timedelta_seconds = (end_datetime - datetime.combine(end_inner_date, time(0))).total_seconds()
-                end_inter_outer_width_seconds = (end_outer_date - end_inner_date).total_seconds()
-
-                linear_scaling = (start_timedelta_seconds + end_timedelta_seconds) / (start_inter_outer_width_seconds + end_inter_outer_width_seconds)
-
-            return inner_accrual + accrual_difference * linear_scaling
+                start_day, start_fraction = DayCountCalculator._split_into_day_and_fraction(start_datetime)
+                end_day, end_fraction = DayCountCalculator._split_into_day_and_fraction(end_datetime)
+                one_day = timedelta(days=1)
+
+                if start_day == end_day:  # the portion of a single day
+                    if start_fraction == end_fraction:
+                        return 0.0
+                    return date_count_function(start_day, start_day + one_day) * (end_fraction - start_fraction)
+
+                # interpolate each endpoint linearly between the two midnights which surround it
+                accrual = 0.0
+                for start_shift, start_weight in ((0, 1.0 - start_fraction), (1, start_fraction)):
+                    for end_shift, end_weight in ((0, 1.0 - end_fraction), (1, end_fraction)):
+                        weight = start_weight * end_weight
+                        if weight != 0.0:
+                            accrual += weight * date_count_function(start_day + start_shift * one_day,
+                                                                    end_day + end_shift * one_day)
+
+            return accrual
 
         return increment_from_seconds
 
-- 
2.43.0


From 7e79214738a77e9a4287e62534a50947a34c8a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 02/72] fix: 30/360 recognises February 29 as the last day of
 February in leap years

February 28 was treated as the month end in every year, e.g. 2024-02-28 to 2024-02-29 accrued -1/360.
---
 fixedIncome/src/scheduling_tools/day_count_calculator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/day_count_calculator.py b/fixedIncome/src/scheduling_tools/day_count_calculator.py
index 2a8f103..40811b4 100644
--- a/fixedIncome/src/scheduling_tools/day_count_calculator.py
+++ b/fixedIncome/src/scheduling_tools/day_count_calculator.py
@@ -150,8 +150,8 @@ class DayCountCalculator(object):
 
         # date adjustments in order according to https://en.wikipedia.org/wiki/Day_count_convention#30/360_US
 
-        start_date_last_day_in_feb = (start_month == 2) and (start_day == 28)
-        end_date_last_day_in_feb = (end_month == 2) and (end_day == 28)
+        start_date_last_day_in_feb = (start_month == 2) and ((start_date + timedelta(days=1)).month == 3)
+        end_date_last_day_in_feb = (end_month == 2) and ((end_date + timedelta(days=1)).month == 3)
 
         # adjustment (1)
         if start_date_last_day_in_feb and end_date_last_day_in_feb:
-- 
2.43.0


From 2a6a4ec4eeda7beab7de360845961dfec97cc665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 03/72] fix: business days account for holidays observed in the
 neighbouring year

New Year's Day 2022 (a Saturday) is observed on Friday 2021-12-31, which was treated as a business day.
---
 fixedIncome/src/scheduling_tools/scheduler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/scheduler.py b/fixedIncome/src/scheduling_tools/scheduler.py
index a97794a..3891bf3 100644
--- a/fixedIncome/src/scheduling_tools/scheduler.py
+++ b/fixedIncome/src/scheduling_tools/scheduler.py
@@ -100,8 +100,8 @@ class Scheduler(object):
         """
         is_weekday = date_obj.weekday() != Weekdays.SATURDAY.value and date_obj.weekday() != Weekdays.SUNDAY.value
         year = date_obj.year
-        not_holiday = date_obj not in generate_all_holidays(from_year=year,
-                                                            to_year=year,
+        not_holiday = date_obj not in generate_all_holidays(from_year=year-1,  # an observed holiday may fall
+                                                            to_year=year+1,    # in a neighbouring year
                                                             holiday_calendar=holiday_calendar)
 
         return not_holiday and is_weekday
-- 
2.43.0


From 073e443f605313c150569e9a7ffacff2e94e7a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 04/72] fix: dates generated by month increments from a month
 end do not drift

Increments were accumulated, so 2022-08-31 stepped by six months gave 2023-02-28 and then 2023-08-28.
---
 fixedIncome/src/scheduling_tools/scheduler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/scheduler.py b/fixedIncome/src/scheduling_tools/scheduler.py
index 3891bf3..4c5e1f7 100644
--- a/fixedIncome/src/scheduling_tools/scheduler.py
+++ b/fixedIncome/src/scheduling_tools/scheduler.py
@@ -147,13 +147,13 @@ class Scheduler(object):
         if positive_delta:
             while date_obj <= end_date and count <= max_dates:
                 dates.append(date_obj)
-                date_obj += increment
                 count += 1
+                date_obj = start_date + count * increment  # from the start date, so month ends do not drift
         else:  # increment is a negative amount of time
             while date_obj >= end_date and count <= max_dates:
                 dates.append(date_obj)
-                date_obj += increment
                 count += 1
+                date_obj = start_date + count * increment  # from the start date, so month ends do not drift
 
         return dates
 
-- 
2.43.0


From e5bec8f954a5c927ea176f48246f13d8fc20a723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 05/72] fix: adjustments are evaluated at the requested date
 past the last knot of a curve

The datetime.date class itself was passed to the adjustment function.
---
 fixedIncome/src/curves/base_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/curves/base_curve.py b/fixedIncome/src/curves/base_curve.py
index 5f8d85f..595ab68 100644
--- a/fixedIncome/src/curves/base_curve.py
+++ b/fixedIncome/src/curves/base_curve.py
@@ -114,7 +114,7 @@ class Curve(Callable):
 
             match self.right_end_behavior:
                 case EndBehavior.CONSTANT:
-                    return last_val + adjustment(date)
+                    return last_val + adjustment(date_obj)
 
                 case EndBehavior.ERROR:
                     raise ValueError(f'Error in interpolate right end behavior. '
-- 
2.43.0


From 14b71ad45ca34876a0f42775c6ce0b7d2b2ce4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 06/72] fix: a cashflow collection can be iterated

__iter__ returned a dict view, which is not an iterator, so iterating raised TypeError.
---
 fixedIncome/src/assets/base_cashflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/assets/base_cashflow.py b/fixedIncome/src/assets/base_cashflow.py
index bf4f632..e0dbb9e 100644
--- a/fixedIncome/src/assets/base_cashflow.py
+++ b/fixedIncome/src/assets/base_cashflow.py
@@ -121,7 +121,7 @@ class CashflowCollection(Set):
         return key in self.cashflows
     def __iter__(self):
         """ Iterates through the cashflows in the collection. """
-        return self.cashflows.items()
+        return iter(self.cashflows.items())
 
     def __getitem__(self, item: CashflowKeys | str) -> Cashflow:
         """
-- 
2.43.0


From bfd7397c90ca17c2710c1d35773189db1074d64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 07/72] fix: replacing a cashflow of a collection also replaces
 it in the cashflow list

---
 fixedIncome/src/assets/base_cashflow.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixedIncome/src/assets/base_cashflow.py b/fixedIncome/src/assets/base_cashflow.py
index e0dbb9e..ad6461f 100644
--- a/fixedIncome/src/assets/base_cashflow.py
+++ b/fixedIncome/src/assets/base_cashflow.py
@@ -138,6 +138,7 @@ class CashflowCollection(Set):
         Method to put a new cashflow into the Cashflow collection based on key.
         """
         if cashflow_key in self.cashflows:
+            self.cashflow_list[self.keys.index(cashflow_key)] = new_cashflow
             self.cashflows[cashflow_key] = new_cashflow
         else:
             self.cashflow_list.append(new_cashflow)
-- 
2.43.0


From f07d4d94300e3dda4a0a16e4467d6e0c3e677c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 08/72] fix: convexity of a bond can be computed

convexity() called calculate_pv_deriv, which does not exist.
---
 fixedIncome/src/assets/credit/corporate_bond.py               | 4 ++--
 .../assets/us_treasury_instruments/us_treasury_instruments.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 9f4fdb3..85d156f 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -431,8 +431,8 @@ class FixedRateBond(CashflowCollection):
         Reference: Tuckman and Serrat, 4th ed. equation (4.14).
         """
         ytm = self.yield_to_maturity()
-        derivative_positive_bump = self.calculate_pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
-        derivative_negative_bump = self.calculate_pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_positive_bump = self.pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_negative_bump = self.pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
         second_derivative = (derivative_positive_bump - derivative_negative_bump) / ONE_BASIS_POINT
         return second_derivative / self.full_price  # TODO: Check if full price or clean price is needed
 
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index dc97ab1..0c4db55 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -378,8 +378,8 @@ class UsTreasuryBond(CashflowCollection):
         Reference: Tuckman and Serrat, 4th ed. equation (4.14).
         """
         ytm = self.yield_to_maturity()
-        derivative_positive_bump = self.calculate_pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
-        derivative_negative_bump = self.calculate_pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_positive_bump = self.pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_negative_bump = self.pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
         second_derivative = (derivative_positive_bump - derivative_negative_bump) / ONE_BASIS_POINT
         return second_derivative / self.full_price  # TODO: Check if full price or clean price is needed
 
-- 
2.43.0


From f9e3d9708780872fb70e1694ecb14ecce0e6a14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 09/72] fix: duration and convexity of a bond do not scale with
 its principal

The derivative of the present value, in dollars, was divided by the full price per 100 of principal.
---
 fixedIncome/src/assets/credit/corporate_bond.py               | 4 ++--
 .../assets/us_treasury_instruments/us_treasury_instruments.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 85d156f..ac0c04d 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -422,7 +422,7 @@ class FixedRateBond(CashflowCollection):
         defined to be:
         Duration = -1/P * dP/d ytm
         """
-        return -self.pv_deriv() / self.full_price  #TODO: determine if I need to use full price of clean price here
+        return -self.pv_deriv() / (self.full_price * self.principal / 100)  #TODO: determine if I need to use full price of clean price here
 
 
     def convexity(self) -> float:
@@ -434,7 +434,7 @@ class FixedRateBond(CashflowCollection):
         derivative_positive_bump = self.pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
         derivative_negative_bump = self.pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
         second_derivative = (derivative_positive_bump - derivative_negative_bump) / ONE_BASIS_POINT
-        return second_derivative / self.full_price  # TODO: Check if full price or clean price is needed
+        return second_derivative / (self.full_price * self.principal / 100)  # TODO: Check if full price or clean price is needed
 
 
 
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index 0c4db55..577b32f 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -370,7 +370,7 @@ class UsTreasuryBond(CashflowCollection):
         defined to be:
         Duration = -1/P * dP/d ytm
         """
-        return -self.pv_deriv() / self.full_price  #TODO: determine if I need to use full price of clean price here
+        return -self.pv_deriv() / (self.full_price * self.principal / 100)  #TODO: determine if I need to use full price of clean price here
 
     def convexity(self) -> float:
         """
@@ -381,7 +381,7 @@ class UsTreasuryBond(CashflowCollection):
         derivative_positive_bump = self.pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
         derivative_negative_bump = self.pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
         second_derivative = (derivative_positive_bump - derivative_negative_bump) / ONE_BASIS_POINT
-        return second_derivative / self.full_price  # TODO: Check if full price or clean price is needed
+        return second_derivative / (self.full_price * self.principal / 100)  # TODO: Check if full price or clean price is needed
 
 
 class UsTreasuryFuture(CashflowCollection):
-- 
2.43.0


From de8aabac85138f0e37f45b693f6e4488cec87730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 10/72] fix: accrued interest accrues over the coupon period
 that contains the settlement date

The period was found from the purchase date and the adjusted payment dates, so a trade that settles just after a
coupon date accrued more than a whole coupon, or crashed.
---
 fixedIncome/src/assets/credit/corporate_bond.py                 | 2 +-
 .../assets/us_treasury_instruments/us_treasury_instruments.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index ac0c04d..eaac4ec 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -284,7 +284,7 @@ class FixedRateBond(CashflowCollection):
             following_date = self[CashflowKeys.COUPON_PAYMENTS][0].unadjusted_payment_date
 
         else:
-            date_index = bisect.bisect_right([payment.payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], self.purchase_date)
+            date_index = bisect.bisect_left([payment.unadjusted_payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], settlement_date)
             previous_date = self[CashflowKeys.COUPON_PAYMENTS][date_index-1].unadjusted_payment_date
             following_date = self[CashflowKeys.COUPON_PAYMENTS][date_index].unadjusted_payment_date
             reference_date = previous_date
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index 577b32f..a82dcad 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -145,7 +145,7 @@ class UsTreasuryBond(CashflowCollection):
             following_date = self[CashflowKeys.COUPON_PAYMENTS][0].unadjusted_payment_date
 
         else:
-            date_index = bisect.bisect_right([payment.payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], self.purchase_date)
+            date_index = bisect.bisect_left([payment.unadjusted_payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], settlement_date)
             previous_date = self[CashflowKeys.COUPON_PAYMENTS][date_index-1].unadjusted_payment_date
             following_date = self[CashflowKeys.COUPON_PAYMENTS][date_index].unadjusted_payment_date
             reference_date = previous_date
-- 
2.43.0


From b9523dc85693697e7b2bcd03e02e9dc15499133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 11/72] fix: accrued interest of a corporate bond as of a
 reference date does not raise AttributeError

---
 fixedIncome/src/assets/credit/corporate_bond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index eaac4ec..94597ab 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -271,7 +271,7 @@ class FixedRateBond(CashflowCollection):
             return 0.0
 
         settlement_date = self.settlement_date if reference_date is None else Scheduler.calculate_settlement_date(purchase_date=reference_date,
-                                                                                                                  settlement_convention=self.settlement_convention,
+                                                                                                                  settlement_convention=self._settlement_convention,
                                                                                                                   holiday_calendar=self.holiday_calendar)
         if self.settlement_date < self.dated_date:
             raise ValueError(f'Settlement date {self.settlement_date} is before the dated date {self.dated_date}'
-- 
2.43.0


From 618f112b105fd56174b84191b0ffbe9fb46c14ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 12/72] fix: accrued interest as of a reference date accrues to
 the settlement of that date

calculate_accrued_interest(reference_date) accrued to the settlement of the original purchase.
---
 fixedIncome/src/assets/credit/corporate_bond.py             | 6 +++---
 .../us_treasury_instruments/us_treasury_instruments.py      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 94597ab..1e50124 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -273,8 +273,8 @@ class FixedRateBond(CashflowCollection):
         settlement_date = self.settlement_date if reference_date is None else Scheduler.calculate_settlement_date(purchase_date=reference_date,
                                                                                                                   settlement_convention=self._settlement_convention,
                                                                                                                   holiday_calendar=self.holiday_calendar)
-        if self.settlement_date < self.dated_date:
-            raise ValueError(f'Settlement date {self.settlement_date} is before the dated date {self.dated_date}'
+        if settlement_date < self.dated_date:
+            raise ValueError(f'Settlement date {settlement_date} is before the dated date {self.dated_date}'
                              f' for us_treasury_instruments\n{self}.')
 
         # Find last payment accrual date.
@@ -290,7 +290,7 @@ class FixedRateBond(CashflowCollection):
             reference_date = previous_date
 
         accrual_period = DayCountCalculator.compute_accrual_length(
-            reference_date, self.settlement_date, dcc=self.day_count_convention
+            reference_date, settlement_date, dcc=self.day_count_convention
         )
 
         accrual_fraction = accrual_period / DayCountCalculator.compute_accrual_length(
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index a82dcad..4306db6 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -134,8 +134,8 @@ class UsTreasuryBond(CashflowCollection):
         settlement_date = self.settlement_date if reference_date is None else Scheduler.calculate_settlement_date(purchase_date=reference_date,
                                                                                                                   settlement_convention=self.settlement_convention,
                                                                                                                   holiday_calendar=self.holiday_calendar)
-        if self.settlement_date < self.dated_date:
-            raise ValueError(f'Settlement date {self.settlement_date} is before the dated date {self.dated_date}'
+        if settlement_date < self.dated_date:
+            raise ValueError(f'Settlement date {settlement_date} is before the dated date {self.dated_date}'
                              f' for us_treasury_instruments\n{self}.')
 
         # Find last payment accrual date.
@@ -151,7 +151,7 @@ class UsTreasuryBond(CashflowCollection):
             reference_date = previous_date
 
         accrual_period = DayCountCalculator.compute_accrual_length(
-            reference_date, self.settlement_date, dcc=self.day_count_convention
+            reference_date, settlement_date, dcc=self.day_count_convention
         )
 
         accrual_fraction = accrual_period / DayCountCalculator.compute_accrual_length(
-- 
2.43.0


From 6930b069ffcf944364bd5c38c99167783f736d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 13/72] fix: full price and yield to maturity as of a reference
 date use the accrued interest of that date

get_full_price(reference_date) returned the full price of the original purchase, because the accrued interest had been
cached, and overwrote the bond's full price.
---
 fixedIncome/src/assets/credit/corporate_bond.py       | 11 ++++-------
 .../us_treasury_instruments.py                        | 11 ++++-------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 1e50124..af04602 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -306,16 +306,13 @@ class FixedRateBond(CashflowCollection):
         of accrued interest.
         """
         reference_date = reference_date if reference_date is not None else self.purchase_date
-
-        if self.accrued_interest is None:
-            self.accrued_interest = self.calculate_accrued_interest(reference_date)
+        accrued_interest = self.calculate_accrued_interest(reference_date)
 
         # normalize the amount of accrued interest by the principal amount
         # Put into 100 principal convention.
-        normalized_accrued_interest = (self.accrued_interest / self.principal) * 100.0
-        self.full_price = self.price + normalized_accrued_interest
+        normalized_accrued_interest = (accrued_interest / self.principal) * 100.0
 
-        return self.full_price
+        return self.price + normalized_accrued_interest
 
     def discount_cashflows_by_fixed_rate(self, fixed_rate: float | np.ndarray, reference_date: Optional[date] = None) -> float:
         """
@@ -411,7 +408,7 @@ class FixedRateBond(CashflowCollection):
                 accrual_df = 1 / (1 + fixed_rate / self.num_payments_per_year) ** accrual_times_num_payments
                 pv_times_accrual += accrual_df * payment.payment * accrual
 
-        scaled_full_price = self.full_price * self.principal / 100
+        scaled_full_price = self.get_full_price(reference_date) * self.principal / 100
 
         return pv_times_accrual/scaled_full_price
 
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index 4306db6..e8266a8 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -185,16 +185,13 @@ class UsTreasuryBond(CashflowCollection):
         of accrued interest.
         """
         reference_date = reference_date if reference_date is not None else self.purchase_date
-
-        if self.accrued_interest is None:
-            self.accrued_interest = self.calculate_accrued_interest(reference_date)
+        accrued_interest = self.calculate_accrued_interest(reference_date)
 
         # normalize the amount of accrued interest by the principal amount
         # Put into 100 principal convention.
-        normalized_accrued_interest = (self.accrued_interest / self.principal) * 100.0
-        self.full_price = self.price + normalized_accrued_interest
+        normalized_accrued_interest = (accrued_interest / self.principal) * 100.0
 
-        return self.full_price
+        return self.price + normalized_accrued_interest
 
     def calculate_dated_date(self) -> date:
         """
@@ -341,7 +338,7 @@ class UsTreasuryBond(CashflowCollection):
 
         full_price = self.get_full_price(reference_date)
 
-        target_price = self.full_price * self.principal/100
+        target_price = full_price * self.principal/100
         def diff_from_full_price(fixed_rate) -> np.array:
             return np.array([target_price - self.discount_cashflows_by_fixed_rate(fixed_rate, reference_date)])
 
-- 
2.43.0


From a3fdc1f696c43dd453afbeef7f9a7f307651b796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 14/72] fix: payments received as of a reference date follow
 the bond's settlement convention

One business day was assumed, while accrued interest uses the settlement convention.
---
 fixedIncome/src/assets/credit/corporate_bond.py               | 4 +++-
 .../assets/us_treasury_instruments/us_treasury_instruments.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index af04602..62db2f0 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -155,7 +155,9 @@ class FixedRateBond(CashflowCollection):
         if reference_date is None:
             settlement_date = self.settlement_date
         else:
-            settlement_date = Scheduler.add_business_days(reference_date, 1, self.holiday_calendar)
+            settlement_date = Scheduler.calculate_settlement_date(purchase_date=reference_date,
+                                                                  settlement_convention=self._settlement_convention,
+                                                                  holiday_calendar=self.holiday_calendar)
         return payment.unadjusted_payment_date >= settlement_date
 
 
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index e8266a8..d26f48e 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -239,7 +239,9 @@ class UsTreasuryBond(CashflowCollection):
         if reference_date is None:
             settlement_date = self.settlement_date
         else:
-            settlement_date = Scheduler.add_business_days(reference_date, 1, self.holiday_calendar)
+            settlement_date = Scheduler.calculate_settlement_date(purchase_date=reference_date,
+                                                                  settlement_convention=self.settlement_convention,
+                                                                  holiday_calendar=self.holiday_calendar)
         return payment.unadjusted_payment_date >= settlement_date
 
     def create_principal_repayment_cashflow(self) -> Cashflow:
-- 
2.43.0


From 4c700bd3e279b8f8282b413d8686bf4126c88193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 15/72] fix: Macaulay duration as of a reference date only
 counts payments received from that date

---
 fixedIncome/src/assets/credit/corporate_bond.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 62db2f0..6f3f64a 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -395,7 +395,7 @@ class FixedRateBond(CashflowCollection):
         pv_times_accrual = 0.0
         # Accumulate discounted coupon cashflows
         for payment in self[CashflowKeys.COUPON_PAYMENTS]:  # Zero-coupon bonds should have empty iterable here
-            if self.is_payment_received(payment):
+            if self.is_payment_received(payment, reference_date=reference_date):
                 accrual = DayCountCalculator.compute_accrual_length(reference_date, payment.payment_date, self.day_count_convention)
                 accrual_times_num_payments = accrual * self.num_payments_per_year
                 accrual_df = 1 / (1 + fixed_rate / self.num_payments_per_year) ** accrual_times_num_payments
@@ -403,7 +403,7 @@ class FixedRateBond(CashflowCollection):
 
         # add discounted principal re-payment
         for payment in self[CashflowKeys.SINGLE_PAYMENT]:
-            if self.is_payment_received(payment):
+            if self.is_payment_received(payment, reference_date=reference_date):
                 accrual = DayCountCalculator.compute_accrual_length(reference_date, payment.payment_date,
                                                                     self.day_count_convention)
                 accrual_times_num_payments = accrual * self.num_payments_per_year
-- 
2.43.0


From 25f326bb3e9f87aec52f7a6fe9af58f82f8defc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 16/72] fix: the key rate keeps its bump value when a
 derivative with respect to it is calculated

---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 64b850e..6e6a913 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -133,15 +133,14 @@ class YieldCurve(Curve):
         which is defined to be:
             (PV(plus key rate adjustment) - PV) / ONE BASIS POINT
         """
-        key_rate.create_adjustment_function()  # creates the default adjustment function with 1 bp movement
+        original_bump_val = key_rate.bump_val
         key_rate.set_bump_val(-ONE_BASIS_POINT/2)
         pv_with_negative_adjustment = self.present_value(assets, key_rate)
 
-        key_rate.create_adjustment_function()
         key_rate.set_bump_val(ONE_BASIS_POINT / 2)
         pv_with_positive_adjustment = self.present_value(assets, key_rate)
 
-        key_rate.create_adjustment_function()  # reset key rate bump value
+        key_rate.set_bump_val(original_bump_val)  # reset key rate bump value
         key_rate_deriv = (pv_with_positive_adjustment - pv_with_negative_adjustment) / ONE_BASIS_POINT
         return key_rate_deriv
 
-- 
2.43.0


From b435bad2b388a22c4465171b4a348784f3f76404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 17/72] fix: a yield curve can be constructed from any iterable
 of instruments

---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 6e6a913..db4ed0d 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -271,6 +271,7 @@ class YieldCurveFactory(object):
                               interpolation_method: InterpolationMethod,
                               reference_date: date) -> YieldCurve:
 
+        instruments = list(instruments)
         knot_dates = [bond_obj.maturity_date for bond_obj in instruments]
         values = [0.0 for date_obj in knot_dates]
         market_prices = np.array([bond_obj.price for bond_obj in instruments])
-- 
2.43.0


From e74b0d9b3306d77af997ab54a93140720890d4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 18/72] fix: bootstrapping solves for the knot of each
 instrument when instruments are not ordered by maturity

---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index db4ed0d..317e7d4 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -313,7 +313,7 @@ class YieldCurveFactory(object):
         """
         Constructs a yield curve by bootstrapping the PV values to match their market prices.
         """
-        instruments = list(instruments)
+        instruments = sorted(instruments, key=lambda instrument: instrument.to_knot_value_pair().knot)
 
         market_prices = [bond_obj.price for bond_obj in instruments]
 
-- 
2.43.0


From 1c2136b43994021365e8ea3aa1e0dced378fda10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 19/72] fix: bootstrapping sets each knot to the solution that
 was found

---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 317e7d4..672a18f 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -349,9 +349,7 @@ class YieldCurveFactory(object):
 
             solution_knot = KnotValuePair(knot=instrument.to_knot_value_pair().knot,
                                           value=float(convergence_solution['x']))
-
-            if index == 4:  # TODO: What is this??
-                yield_curve_obj.present_value(instrument)
+            yield_curve_obj.reset_interpolation_value(new_value=solution_knot, index=index)
 
         return yield_curve_obj
 
-- 
2.43.0


From 80d07dba4acb73f839788534264d3f1c0a84d484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 20/72] fix: a discount curve obtained from a yield curve does
 not change when another one is requested

---
 .../src/curves/yield_curves/yield_curve.py    | 36 ++++++++-----------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 672a18f..3e066e4 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -82,17 +82,13 @@ class YieldCurve(Curve):
                 interpolation_values = [KnotValuePair(knot=kv_pair.knot, value=self(kv_pair.knot, adjustment_fxcn))
                                         for kv_pair in self.interpolation_values]
 
-                if self.discount_curve is None:
-
-                    self.discount_curve = DiscountCurve(interpolation_values=interpolation_values,
-                                                        interpolation_method=self.interpolation_method,
-                                                        index=CurveIndex.US_TREASURY,
-                                                        interpolation_day_count_convention=self.interpolation_day_count_convention,
-                                                        reference_date=self.reference_date,
-                                                        left_end_behavior=EndBehavior.ERROR,
-                                                        right_end_behavior=EndBehavior.ERROR)
-                else:
-                    self.discount_curve.reset_interpolation_values(interpolation_values)
+                self.discount_curve = DiscountCurve(interpolation_values=interpolation_values,
+                                                    interpolation_method=self.interpolation_method,
+                                                    index=CurveIndex.US_TREASURY,
+                                                    interpolation_day_count_convention=self.interpolation_day_count_convention,
+                                                    reference_date=self.reference_date,
+                                                    left_end_behavior=EndBehavior.ERROR,
+                                                    right_end_behavior=EndBehavior.ERROR)
 
                 return self.discount_curve
 
@@ -109,17 +105,13 @@ class YieldCurve(Curve):
                 interpolation_values = [KnotValuePair(knot=date_obj, value=df)
                                         for date_obj, df in zip(date_range, discount_factors)]
 
-                if self.discount_curve is None:
-                    self.discount_curve = DiscountCurve(interpolation_values=interpolation_values,
-                                                        interpolation_method=InterpolationMethod.LINEAR,  # because we fill the date range
-                                                        index=CurveIndex.US_TREASURY,
-                                                        interpolation_day_count_convention=self.interpolation_day_count_convention,
-                                                        reference_date=self.reference_date,
-                                                        left_end_behavior=EndBehavior.ERROR,
-                                                        right_end_behavior=EndBehavior.ERROR)
-
-                else:
-                    self.discount_curve.reset_interpolation_values(interpolation_values)
+                self.discount_curve = DiscountCurve(interpolation_values=interpolation_values,
+                                                    interpolation_method=InterpolationMethod.LINEAR,  # because we fill the date range
+                                                    index=CurveIndex.US_TREASURY,
+                                                    interpolation_day_count_convention=self.interpolation_day_count_convention,
+                                                    reference_date=self.reference_date,
+                                                    left_end_behavior=EndBehavior.ERROR,
+                                                    right_end_behavior=EndBehavior.ERROR)
 
                 return self.discount_curve
 
-- 
2.43.0


From fc758ef177770e2bcde89c9114d0396c5e891c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 21/72] fix: a key rate without prior and next dates is a
 parallel shift

---
 fixedIncome/src/risk/key_rate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 455d19c..8154090 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -175,6 +175,10 @@ class KeyRate(Callable):
 
         match (self.prior_date, self.key_rate_date, self.next_date):
 
+            case (None, middle, None):  # only key rate
+                def adjustment_fxcn(input_date: date) -> float:
+                    return self.bump_val
+
             case (None, middle, following):  # first key rate
 
                 def adjustment_fxcn(input_date: date) -> float:
@@ -245,10 +249,6 @@ class KeyRate(Callable):
 
                         return (time_to_next / total_time) * self.bump_val
 
-            case (None, middle, None):  # only key rate
-                def adjustment_fxcn(input_date: date) -> float:
-                    return self.bump_val
-
             case _:
                 raise ValueError(f'Case ({self.prior_date}, {self.key_rate_date}, {self.next_date})'
                                  f' not matched in call to self.create_bump_function method.')
-- 
2.43.0


From 1ad7a60b351fcbe28f08459c8c580fd746dbf1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 22/72] fix: the first, last and only key rate of a collection
 can be replaced

---
 fixedIncome/src/risk/key_rate.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 8154090..45c062e 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -302,12 +302,11 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         match self[key].prior_date, self[key].next_date:  # assumed to align with the
                                                                    # previous and next key_rate dates
 
-            case prior_date, next_date:  # one of the middle key rate indices
-                if prior_date < new_key_rate.key_rate_date < next_date:
+            case None, None:  # only key rate in collection
+                try:
                     self.key_rates[key] = new_key_rate
-                else:
-                    raise ValueError(f'New key_rate date {new_key_rate.key_rate_date} is not strictly within '
-                                     f'interval {prior_date} and {next_date}.')
+                except IndexError:
+                    raise IndexError(f'Failed to set new_key_rate at index {key}.')
 
             case None, next_date:  # first key rate index
                 if new_key_rate.key_rate_date < next_date:
@@ -326,11 +325,12 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
                                      f'strictly greater than {prior_date} when new KeyRate object would be '
                                      f'last in the collection.')
 
-            case None, None:  # only key rate in collection
-                try:
+            case prior_date, next_date:  # one of the middle key rate indices
+                if prior_date < new_key_rate.key_rate_date < next_date:
                     self.key_rates[key] = new_key_rate
-                except IndexError:
-                    raise IndexError(f'Failed to set new_key_rate at index {key}.')
+                else:
+                    raise ValueError(f'New key_rate date {new_key_rate.key_rate_date} is not strictly within '
+                                     f'interval {prior_date} and {next_date}.')
 
             case _:
                 raise ValueError(f'New key rate object {new_key_rate} could not be set at index {key}.')
-- 
2.43.0


From 43ea4a9e27a553e4edb5245aef64dfaa59018f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 23/72] fix: in-place addition keeps the key rates of a
 collection ordered by date

---
 fixedIncome/src/risk/key_rate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 45c062e..2c0a459 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -405,7 +405,7 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         try:
             other_kr_dates = set(key_rate for key_rate in other)
             all_kr_dates = list(set(kr_date for kr_date in self) | other_kr_dates)
-            self.key_rates = all_kr_dates
+            self.key_rates = sorted(all_kr_dates)
             self._create_combined_adjustment_function()
             return self
 
-- 
2.43.0


From 3254a12afba3fc4532cbd5cafef507e54f9567fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 24/72] fix: slicing and adding key rate collections does not
 change the dates of the originals

---
 fixedIncome/src/risk/key_rate.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 2c0a459..b7ccd03 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 from collections.abc import MutableSequence
+import copy
 import operator
 import bisect
 from datetime import date
@@ -288,7 +289,7 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         """  Retrieves a KeyRateCollection or KeyRate object from the collection via indexing. """
         if isinstance(key, slice):
             cls = type(self)
-            return cls(self.key_rates[key])
+            return cls(copy.copy(key_rate) for key_rate in self.key_rates[key])
 
         index = operator.index(key)
         return self.key_rates[index]
@@ -392,7 +393,7 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         if isinstance(other, KeyRateCollection):
             other_kr_dates = set(key_rate for key_rate in other)
             all_kr_dates = list(set(kr_date for kr_date in self) | other_kr_dates)
-            return KeyRateCollection(all_kr_dates)
+            return KeyRateCollection(copy.copy(key_rate) for key_rate in all_kr_dates)
         else:
             return NotImplemented
 
@@ -403,6 +404,8 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         by key_rate date. Returns a reference to self.
         """
         try:
+            if isinstance(other, KeyRateCollection):  # the other collection keeps its own key rates
+                other = [copy.copy(key_rate) for key_rate in other]
             other_kr_dates = set(key_rate for key_rate in other)
             all_kr_dates = list(set(kr_date for kr_date in self) | other_kr_dates)
             self.key_rates = sorted(all_kr_dates)
-- 
2.43.0


From 8da558d4b28aaa89135e3a721d52b9daa0ab81b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 25/72] fix: inserting a key rate into a collection adds it

---
 fixedIncome/src/risk/key_rate.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index b7ccd03..6aea72f 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -346,10 +346,15 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         del self.key_rates[key]
         self._create_combined_adjustment_function()
 
-    def insert(self, new_key_rate_object: KeyRate) -> None:  # required for subclassing MutableSequence ABC
-        """ Inerts a Key Rate into the collection. """
+    def insert(self, index: Union[int, KeyRate], new_key_rate_object: Optional[KeyRate] = None) -> None:
+        """
+        Inserts a Key Rate into the collection. Required for subclassing MutableSequence ABC, which passes
+        an index. The position in the collection is determined by the key rate date.
+        """
+        if new_key_rate_object is None:
+            new_key_rate_object = index
 
-        self + new_key_rate_object
+        self += new_key_rate_object
 
     def __len__(self):
         """ Returns the number of KeyRate objects in the collection. """
-- 
2.43.0


From 5c0c21c65e2992b37f2b0beb8827f22a017c913f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 26/72] fix: a refused deletion leaves a key rate collection
 unchanged

---
 fixedIncome/src/risk/key_rate.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 6aea72f..75c215d 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -343,7 +343,12 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         Removes a KeyRate object from the collection by index and re-constructs the adjustment
         function with the remaining KeyRate objects in collection.
         """
-        del self.key_rates[key]
+        remaining_key_rates = self.key_rates.copy()
+        del remaining_key_rates[key]
+        if not remaining_key_rates:
+            raise ValueError('Cannot delete all key rates of a KeyRateCollection.')
+
+        self.key_rates = remaining_key_rates
         self._create_combined_adjustment_function()
 
     def insert(self, index: Union[int, KeyRate], new_key_rate_object: Optional[KeyRate] = None) -> None:
-- 
2.43.0


From b89b1689e93c3d80e09a1fff906316ceb3a21b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 27/72] fix: a risk ladder contains the risks it is built from

---
 fixedIncome/src/risk/risk_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/risk/risk_metrics.py b/fixedIncome/src/risk/risk_metrics.py
index 76a6536..5ac0880 100644
--- a/fixedIncome/src/risk/risk_metrics.py
+++ b/fixedIncome/src/risk/risk_metrics.py
@@ -33,7 +33,7 @@ class RiskLadder(Collection[Risk]):
 
     def __contains__(self, risk: Risk) -> bool:
         """ Tests if the Risk ladder contains a specified risk unit."""
-        pass
+        return risk in self._risks
 
     def __iter__(self):
         return iter(self._risks)
-- 
2.43.0


From 9393ee96ba29e1cd501a792351807b2976879428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 28/72] fix: the first accrual period of a swap starts at its
 start accrual date

---
 .../src/assets/rates/linear_rates/interest_rate_swap.py       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py b/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
index 155e0d5..b6f21dd 100644
--- a/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
+++ b/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
@@ -251,6 +251,8 @@ class FixedToFloatInterestRateSwap(CashflowCollection):
         unadjusted_accrual_dates = Scheduler.generate_dates_by_increments(start_date=self.end_accrual_date,
                                                                           end_date=self.start_accrual_date,
                                                                           increment=increment)
+        if unadjusted_accrual_dates[-1] > self.start_accrual_date:  # first accrual period is a stub
+            unadjusted_accrual_dates.append(self.start_accrual_date)
         unadjusted_accrual_dates.reverse()
         adjusted_accrual_dates = [self.date_adjustment_function(accrual_date) for accrual_date in unadjusted_accrual_dates]
         swap_accruals = []
@@ -290,6 +292,8 @@ class FixedToFloatInterestRateSwap(CashflowCollection):
         unadjusted_accrual_dates = Scheduler.generate_dates_by_increments(start_date=self.end_accrual_date,
                                                                           end_date=self.start_accrual_date,
                                                                           increment=increment)
+        if unadjusted_accrual_dates[-1] > self.start_accrual_date:  # first accrual period is a stub
+            unadjusted_accrual_dates.append(self.start_accrual_date)
         unadjusted_accrual_dates.reverse()
         adjusted_accrual_dates = [self.date_adjustment_function(accrual_date) for accrual_date in unadjusted_accrual_dates]
         fixed_leg_accruals = []
-- 
2.43.0


From 0f4d3c8aed07e219d97e5b42a23e2b1736eb8a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 29/72] fix: the implied rate of a swap does not count fixed
 payments which have been made already

---
 .../src/assets/rates/linear_rates/interest_rate_swap.py        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py b/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
index b6f21dd..d4f44be 100644
--- a/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
+++ b/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
@@ -364,6 +364,9 @@ class FixedToFloatInterestRateSwap(CashflowCollection):
                                                                self.payment_delay,
                                                                self.holiday_calendar)
 
+            if payment_date < discount_curve.reference_date:  # already paid, as in the present value of a cashflow
+                continue
+
             discounted_fixed_accruals += discount_curve(payment_date) * accrual_times_notional
 
         return float_pv / discounted_fixed_accruals
-- 
2.43.0


From 96b339b1030efae4478ae4d056ec5593242d4608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 30/72] fix: a loan paid at the end of month starts at the last
 day of the month of origination

---
 fixedIncome/src/assets/credit/loan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/assets/credit/loan.py b/fixedIncome/src/assets/credit/loan.py
index 6134b65..ae00d93 100644
--- a/fixedIncome/src/assets/credit/loan.py
+++ b/fixedIncome/src/assets/credit/loan.py
@@ -78,7 +78,7 @@ class Loan(CashflowCollection):
         match self._payment_time:
 
             case PaymentTime.END_OF_MONTH:
-                _, last_day = calendar.monthrange(start_date.year, 11)
+                _, last_day = calendar.monthrange(start_date.year, start_date.month)
                 start_date = date(start_date.year, start_date.month, last_day)
 
             case PaymentTime.START_OF_MONTH:
-- 
2.43.0


From 167b9c6fb12bd3b4752633a794ab8e96378b8883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 31/72] fix: payments of a loan paid at the end of month stay
 at the end of month

---
 fixedIncome/src/assets/credit/loan.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fixedIncome/src/assets/credit/loan.py b/fixedIncome/src/assets/credit/loan.py
index ae00d93..4f32a14 100644
--- a/fixedIncome/src/assets/credit/loan.py
+++ b/fixedIncome/src/assets/credit/loan.py
@@ -90,6 +90,8 @@ class Loan(CashflowCollection):
                 raise ValueError(f'{self._payment_time} is not a valid payment time for a loan.')
 
         end_date = start_date + self._term_length
+        if self._payment_time == PaymentTime.END_OF_MONTH:
+            end_date += relativedelta(day=31)  # last day of the month
 
         match self._payment_frequency:
             case PaymentFrequency.MONTHLY:
@@ -107,6 +109,8 @@ class Loan(CashflowCollection):
         while payment_date <= end_date:
             payment_dates.append(payment_date)
             payment_date += payment_increment
+            if self._payment_time == PaymentTime.END_OF_MONTH:
+                payment_date += relativedelta(day=31)  # last day of the month
 
         # unpack extra payments
         if extra_payments is not None:
-- 
2.43.0


From c9f4675139a2eac70631b005b5716b8a2973f518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 32/72] fix: payments of a loan include the extra payments

---
 fixedIncome/src/assets/credit/loan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/assets/credit/loan.py b/fixedIncome/src/assets/credit/loan.py
index 4f32a14..c0d25d2 100644
--- a/fixedIncome/src/assets/credit/loan.py
+++ b/fixedIncome/src/assets/credit/loan.py
@@ -141,7 +141,7 @@ class Loan(CashflowCollection):
                 payment_amount = principal_payment_amount + interest_payment
 
             payments.append(
-                LoanPayment(payment_date=ed, payment=payment_amount,
+                LoanPayment(payment_date=ed, payment=principal_payment_amount + interest_payment,
                             principal_payment=principal_payment_amount,
                             interest_payment=interest_payment
                             )
-- 
2.43.0


From 698147285836c8f3f6131b2552c29a3af564c4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 33/72] fix: a whole number can be given as extra payment of a
 loan

---
 fixedIncome/src/assets/credit/loan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/assets/credit/loan.py b/fixedIncome/src/assets/credit/loan.py
index c0d25d2..c9e8caa 100644
--- a/fixedIncome/src/assets/credit/loan.py
+++ b/fixedIncome/src/assets/credit/loan.py
@@ -114,7 +114,7 @@ class Loan(CashflowCollection):
 
         # unpack extra payments
         if extra_payments is not None:
-            if isinstance(extra_payments, float):
+            if isinstance(extra_payments, (int, float)):
                 extra_payments = [extra_payments for payment in payment_dates]
             else:
                 extra_payments = list(extra_payments)
-- 
2.43.0


From 4443a4ff7eed3d18c4fefdceb2f4ee3f0976a0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 34/72] fix: the payment amount of an interest-free loan is its
 principal spread over the payments

---
 fixedIncome/src/assets/credit/loan.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fixedIncome/src/assets/credit/loan.py b/fixedIncome/src/assets/credit/loan.py
index c9e8caa..c77f5b8 100644
--- a/fixedIncome/src/assets/credit/loan.py
+++ b/fixedIncome/src/assets/credit/loan.py
@@ -59,6 +59,9 @@ class Loan(CashflowCollection):
             self._origination_date, self._end_date, dcc=self._day_count_convention
         )
 
+        if self._interest_rate == 0:
+            return self.principal / (length_in_years * self._payment_frequency.value)
+
         compound_factor = (1+self._interest_rate/self._payment_frequency.value)**(length_in_years * self._payment_frequency.value)
         numerator = self.principal * compound_factor
         denominator = (1 - compound_factor)/(-self._interest_rate / self._payment_frequency.value)
-- 
2.43.0


From 0783e058b02c1cc1879b6a2290ce567810d849c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 35/72] fix: the present value of a loan can be calculated

---
 fixedIncome/src/assets/credit/loan.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/assets/credit/loan.py b/fixedIncome/src/assets/credit/loan.py
index c77f5b8..626d5b5 100644
--- a/fixedIncome/src/assets/credit/loan.py
+++ b/fixedIncome/src/assets/credit/loan.py
@@ -195,8 +195,8 @@ class Loan(CashflowCollection):
 
     def present_value(self, discount_curve: DiscountCurve) -> float:
         ''' Calculates the present value of the loan payments.'''
-        payments = self.generate_payment_schedule()
-        return sum(discount_curve.present_value(payment) for payment in payments)
+        payments = self.generate_payment_schedule(payment_amount=self.calculate_fixed_payment_amount())
+        return discount_curve.present_value(Cashflow(payments))
 
     def to_knot_value_pair(self):
         pass
-- 
2.43.0


From beadfcbccddbf870a4eafbcb7fb644778a961940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 36/72] fix: the minimum variance and maximum utility
 portfolios are optimal when variances are small

---
 fixedIncome/src/portfolio/portfolio_optimization.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/portfolio/portfolio_optimization.py b/fixedIncome/src/portfolio/portfolio_optimization.py
index a83a0f0..5f92773 100644
--- a/fixedIncome/src/portfolio/portfolio_optimization.py
+++ b/fixedIncome/src/portfolio/portfolio_optimization.py
@@ -51,17 +51,20 @@ class PortfolioOptimizer:
         else:
             bounds = [(float('-inf'), float('inf')) for _ in range(self.num_assets)]
 
+        # variances are scaled to be of order one, as the tolerance of the minimizer is absolute
+        variance_scale = np.max(np.abs(self.covariance_matrix)) or 1.0
+
         def objective_func(weights: np.array) -> float:
-            return  weights.dot(self.covariance_matrix.dot(weights))
+            return  weights.dot(self.covariance_matrix.dot(weights)) / variance_scale
 
         def gradient(weights: np.array) -> np.array:
-            return 2 * self.covariance_matrix.dot(weights)
+            return 2 * self.covariance_matrix.dot(weights) / variance_scale
 
         starting_weights = np.array([1/self.num_assets for _ in range(self.num_assets)])
         results = minimize(fun=objective_func, x0=starting_weights, jac=gradient,
                             bounds=bounds,
                            constraints=constraints,
-                           method='SLSQP')
+                           method='SLSQP', options={'ftol': 1e-12})
         return results['x']
 
 
@@ -137,7 +140,7 @@ class PortfolioOptimizer:
 
         starting_weights = np.array([1/self.num_assets for _ in range(self.num_assets)])
         results = minimize(fun=objective_func, x0=starting_weights, jac=gradient,
-                           constraints=constraints, bounds=bounds, method='SLSQP')
+                           constraints=constraints, bounds=bounds, method='SLSQP', options={'ftol': 1e-12})
 
         return results['x']
 
-- 
2.43.0


From a6e2156beba716dbe2744dbd6e15c5db05954100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 37/72] fix: the efficient frontier does not go beyond the
 upper return

---
 fixedIncome/src/portfolio/portfolio_optimization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/portfolio/portfolio_optimization.py b/fixedIncome/src/portfolio/portfolio_optimization.py
index 5f92773..0d24cc5 100644
--- a/fixedIncome/src/portfolio/portfolio_optimization.py
+++ b/fixedIncome/src/portfolio/portfolio_optimization.py
@@ -82,7 +82,8 @@ class PortfolioOptimizer:
         if upper_return is None:
             upper_return = self.max_return - return_increment
 
-        returns = np.arange(start=lower_return, stop=upper_return + return_increment, step=return_increment)
+        # includes the upper return, but no target return above it
+        returns = np.arange(start=lower_return, stop=upper_return + 1e-9 * return_increment, step=return_increment)
         weights = np.array([self.find_minimum_variance_portfolio(target_return, allow_short_positions)
                   for target_return in returns])
 
-- 
2.43.0


From 1a12d955fb90c5e1c40897a8fe90538e54adf2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 38/72] fix: a path is interpolated towards the nearer grid
 point between two grid points

---
 fixedIncome/src/stochastics/brownian_motion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/brownian_motion.py b/fixedIncome/src/stochastics/brownian_motion.py
index 8e37177..ff72944 100644
--- a/fixedIncome/src/stochastics/brownian_motion.py
+++ b/fixedIncome/src/stochastics/brownian_motion.py
@@ -55,7 +55,7 @@ def datetime_to_path_call(
                                                                         end_date=datetime_grid[upper_datetime_index],
                                                                         dcc=day_count_convention)
 
-    interpolation_factor = time_to_next_grid_point / (time_to_next_grid_point + time_since_last_grid_point)
+    interpolation_factor = time_since_last_grid_point / (time_to_next_grid_point + time_since_last_grid_point)
 
     prev_value = path[:, lower_datetime_index]
     next_value = path[:, upper_datetime_index]
-- 
2.43.0


From 91696a01b47b86812d460ae2ab8ab856fd6b4357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 39/72] fix: a Brownian motion keeps the datetimes of its path
 when other increments are generated

---
 fixedIncome/src/stochastics/brownian_motion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/brownian_motion.py b/fixedIncome/src/stochastics/brownian_motion.py
index ff72944..5d85a09 100644
--- a/fixedIncome/src/stochastics/brownian_motion.py
+++ b/fixedIncome/src/stochastics/brownian_motion.py
@@ -81,6 +81,7 @@ class BrownianMotion(Callable):
         assert dimension, dimension == self.correlation_matrix.shape
         self.lower_triangular_mat = np.linalg.cholesky(self.correlation_matrix)
         self._path = None
+        self._path_datetimes = None
         self._datetimes = None
         self._dt_increments = None
         self.day_count_convention = day_count_convention
@@ -118,7 +119,7 @@ class BrownianMotion(Callable):
                                      start_date_time=self.start_date_time,
                                      end_date_time=self.end_date_time,
                                      day_count_convention=self.day_count_convention,
-                                     datetime_grid=self.datetimes,
+                                     datetime_grid=self._path_datetimes,
                                      path=self.path)
 
     def generate_increments(
@@ -161,6 +162,7 @@ class BrownianMotion(Callable):
 
         if set_path:
             self._path = brownian_paths
+            self._path_datetimes = self.datetimes
 
         return brownian_paths
 
-- 
2.43.0


From e3b2dcba359ab4d946dce3693c242c13fbfde8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 40/72] fix: a diffusion process keeps the datetimes of its
 path when its Brownian motion generates other increments

---
 fixedIncome/src/stochastics/base_processes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/base_processes.py b/fixedIncome/src/stochastics/base_processes.py
index 2e49a02..8280a54 100644
--- a/fixedIncome/src/stochastics/base_processes.py
+++ b/fixedIncome/src/stochastics/base_processes.py
@@ -42,6 +42,7 @@ class DiffusionProcess(abc.Callable):
 
         self._dimension = len(self.drift_diffusion_collection)
         self._path = None
+        self._path_datetimes = None
 
 
     @property
@@ -78,7 +79,7 @@ class DiffusionProcess(abc.Callable):
                                      start_date_time=self.start_date_time,
                                      end_date_time=self.end_date_time,
                                      path=self.path,
-                                     datetime_grid=self.brownian_motion.datetimes,
+                                     datetime_grid=self._path_datetimes,
                                      day_count_convention=self.day_count_convention)
 
     def generate_path(self,
@@ -109,6 +110,7 @@ class DiffusionProcess(abc.Callable):
         solution[:, brownian_increments.shape[1]] = current_val  # solution has one more slot
         if set_path:
             self._path = solution
+            self._path_datetimes = self.brownian_motion.datetimes
 
         return solution
 
@@ -117,6 +119,7 @@ class DiffusionProcess(abc.Callable):
         Helper function to set all the paths to None.
         """
         self._path = None
+        self._path_datetimes = None
 
     def set_dt(self, new_dt: float) -> None:
         """ Sets a new increment dt. The old path is set to None because any path
-- 
2.43.0


From 418f9273a91574f5ef8d6bd3b19643d8d071feb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 41/72] fix: a diffusion process can start at whole numbers and
 at a list of values

---
 fixedIncome/src/stochastics/base_processes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/stochastics/base_processes.py b/fixedIncome/src/stochastics/base_processes.py
index 8280a54..09af74d 100644
--- a/fixedIncome/src/stochastics/base_processes.py
+++ b/fixedIncome/src/stochastics/base_processes.py
@@ -7,7 +7,6 @@ from datetime import datetime, timedelta
 from dateutil.relativedelta import relativedelta
 from typing import Optional, NamedTuple, Callable
 import numpy as np
-import copy
 from fixedIncome.src.stochastics.brownian_motion import BrownianMotion, datetime_to_path_call
 from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
 
@@ -92,7 +91,7 @@ class DiffusionProcess(abc.Callable):
         """
         brownian_increments, dt_increments = self.brownian_motion.generate_increments(dt=self.dt, seed=seed)
         solution = np.empty((brownian_increments.shape[0], brownian_increments.shape[1] + 1))
-        current_val = copy.deepcopy(starting_value)
+        current_val = np.array(starting_value, dtype=float)  # a copy
         time = 0
         for index, (shock, dt) in enumerate(zip(brownian_increments.T, dt_increments)):  # used to be dt_increments.T
             solution[:, index] = current_val
@@ -104,7 +103,7 @@ class DiffusionProcess(abc.Callable):
                 diffusion_shock = drift_diffusion_functions.diffusion(time, current_val) @ shock  # shock contains sqrt(dt) scaling
                 next_step[row_index] = drift_increment + diffusion_shock
 
-            current_val += next_step
+            current_val = current_val + next_step
             time += dt
 
         solution[:, brownian_increments.shape[1]] = current_val  # solution has one more slot
-- 
2.43.0


From b27cffd8fbf218209f4a7d05d116bea29eab04f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 42/72] fix: the path of a diffusion process has the dimension
 of the process rather than that of its Brownian motion

---
 fixedIncome/src/stochastics/base_processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/base_processes.py b/fixedIncome/src/stochastics/base_processes.py
index 09af74d..2e5c6f9 100644
--- a/fixedIncome/src/stochastics/base_processes.py
+++ b/fixedIncome/src/stochastics/base_processes.py
@@ -90,7 +90,7 @@ class DiffusionProcess(abc.Callable):
 
         """
         brownian_increments, dt_increments = self.brownian_motion.generate_increments(dt=self.dt, seed=seed)
-        solution = np.empty((brownian_increments.shape[0], brownian_increments.shape[1] + 1))
+        solution = np.empty((self.dimension, brownian_increments.shape[1] + 1))
         current_val = np.array(starting_value, dtype=float)  # a copy
         time = 0
         for index, (shock, dt) in enumerate(zip(brownian_increments.T, dt_increments)):  # used to be dt_increments.T
-- 
2.43.0


From 7b8792b026eb625bd45b7ddd1d6cdac830b1e1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 43/72] fix: a geometric Brownian motion can start at a float

---
 fixedIncome/src/stochastics/geometric_brownian_motion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/geometric_brownian_motion.py b/fixedIncome/src/stochastics/geometric_brownian_motion.py
index 4465326..c8e961e 100644
--- a/fixedIncome/src/stochastics/geometric_brownian_motion.py
+++ b/fixedIncome/src/stochastics/geometric_brownian_motion.py
@@ -86,7 +86,7 @@ class GeometricBrownianMotion:
 
         brownian_increments, dt_increments = self.brownian_motion.generate_increments(dt=self.dt, seed=seed)
         solution = np.empty((self.dimension,  brownian_increments.shape[1]+1))
-        current_val = starting_value.flatten()
+        current_val = np.array(starting_value, dtype=float).flatten()
         time = 0
         for index, (shock, dt) in enumerate(zip(brownian_increments.T, dt_increments)):
             solution[:, index] = current_val
-- 
2.43.0


From 1adbeba95f960e946fb6d8bfd5be1c915d1823b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 44/72] fix: a short rate model returns the path it generates
 and does not set it when not asked to

---
 .../base_short_rate_model.py                  | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 2935b1f..5d6317d 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -62,15 +62,20 @@ class ShortRateModel(DiffusionProcess):
         A function which generates the short rate sample path from the underlying
         state variable diffusion sample paths.
         """
-        #self._reset_paths_and_curves()
-        self.state_variables_diffusion_process.generate_path(starting_value=starting_state_space_values,
-                                                             set_path=set_path,
-                                                             seed=seed)
+        state_variables_path = self.state_variables_diffusion_process.generate_path(
+            starting_value=starting_state_space_values,
+            set_path=set_path,
+            seed=seed)
 
-        path_length = self.state_variables_diffusion_process.path.shape[1]
-        self._path = np.zeros(shape=(path_length,))
+        path_length = state_variables_path.shape[1]
+        path = np.zeros(shape=(path_length,))
         for index in range(path_length):
-            self._path[index] = self.short_rate_transformation(self.state_variables_diffusion_process.path[:, index])
+            path[index] = self.short_rate_transformation(state_variables_path[:, index])
+
+        if set_path:
+            self._path = path
+
+        return path
 
 
     def _reset_paths_and_curves(self) -> None:
-- 
2.43.0


From c5cb277684a4984cf4f839c1e09d575523b431b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 45/72] fix: a new path of a short rate model discards the
 integrals and curves of the previous path

---
 .../src/stochastics/short_rate_models/base_short_rate_model.py   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 5d6317d..50709f9 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -73,6 +73,7 @@ class ShortRateModel(DiffusionProcess):
             path[index] = self.short_rate_transformation(state_variables_path[:, index])
 
         if set_path:
+            self._reset_paths_and_curves()  # integrals and curves of an earlier path are no longer valid
             self._path = path
 
         return path
-- 
2.43.0


From 4be63b9fd75161de45f05827d84c7e32a7d96900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 46/72] fix: setting the increment of a short rate model also
 sets it for its state variables

---
 .../stochastics/short_rate_models/base_short_rate_model.py   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 50709f9..c506ff8 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -89,6 +89,11 @@ class ShortRateModel(DiffusionProcess):
         self._continuously_compounded_accrual_path = None
         self._discount_curve = None
 
+    def set_dt(self, new_dt: timedelta | relativedelta) -> None:
+        """ Sets a new increment dt, also for the state variables which generate the path. """
+        super().set_dt(new_dt)
+        self.state_variables_diffusion_process.set_dt(new_dt)
+
     def generate_integrated_path(self, datetimes: Optional[list[datetime | date]] = None) -> np.array:
         """
         Method for creating a path which represents the integral of the short rate path
-- 
2.43.0


From e04136e2b96f16da9aeaa2ca9f6a46635c8afb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 47/72] fix: the integrated short rate accrues every interval
 once

---
 .../src/stochastics/short_rate_models/base_short_rate_model.py   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index c506ff8..63231f0 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -126,6 +126,7 @@ class ShortRateModel(DiffusionProcess):
                 next_trapezoid_val = min_rate * accrual + (max_rate - min_rate) * accrual / 2
             # compute integral
             running_integral += next_trapezoid_val
+            old_time_accrual = new_time_accrual
             interpolation_values.append(running_integral)
 
         self._integrated_path = np.array(interpolation_values)
-- 
2.43.0


From 674826d1dcfab56ca2b31d2bf787407f2de27267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 48/72] fix: the accrual curve of a short rate model can be
 created

---
 .../short_rate_models/base_short_rate_model.py            | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 63231f0..3afa1ea 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -149,12 +149,10 @@ class ShortRateModel(DiffusionProcess):
                                                                increment=self.dt,
                                                                max_dates=1_000_000)
 
-        if self._integrated_path is None:
-            self.generate_integrated_path(start_date_time, end_date_time, datetimes)
+        integrated_path = self.generate_integrated_path(datetimes)
 
-        compound_interpolation_values = [KnotValuePair(start_date_time, 1.0)]
-        compound_interpolation_values += [KnotValuePair(datetime_obj, math.exp(integral))
-                                          for datetime_obj, integral in zip(datetimes, self._integrated_path)]
+        compound_interpolation_values = [KnotValuePair(datetime_obj, math.exp(integral))
+                                         for datetime_obj, integral in zip(datetimes, integrated_path)]
 
         self._continuously_compounded_accrual_curve = Curve(interpolation_values=compound_interpolation_values,
                                                             interpolation_method=InterpolationMethod.LINEAR,
-- 
2.43.0


From 7d1903cfb359be2618fc007ff97d0cbe3e9565c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 49/72] fix: the discount curve of a short rate model
 integrates over the requested datetimes

---
 .../stochastics/short_rate_models/base_short_rate_model.py   | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 3afa1ea..15e6261 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -178,10 +178,9 @@ class ShortRateModel(DiffusionProcess):
                                                                increment=self.dt,
                                                                max_dates=1_000_000)
 
-        if self._integrated_path is None:
-            self.generate_integrated_path(datetimes)
+        integrated_path = self.generate_integrated_path(datetimes)  # an earlier one may have other datetimes
 
-        discount_interpolation_values = np.exp(-self._integrated_path)
+        discount_interpolation_values = np.exp(-integrated_path)
         discount_knot_values = [KnotValuePair(datetime_obj, df)
                                 for datetime_obj, df in zip(datetimes, discount_interpolation_values)]
 
-- 
2.43.0


From fff24d4a0dfe1f05d8e143dbab1ee6c6d7c454ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 50/72] fix: the short rate of the Vasicek model is a number,
 so that its path can be integrated

---
 .../affine_yield_curve_models/vasicek_model.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 464a492..2af6909 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -88,7 +88,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
                                              brownian_motion=brownian_motion,
                                              dt=dt)
 
-        super().__init__(short_rate_transformation=lambda short_rate: short_rate,
+        super().__init__(short_rate_transformation=lambda state_variables: state_variables[0],
                          state_variables_diffusion_process=diffusion_process)
 
         self.convexity_limit = -self.volatility**2 / (2 * self.reversion_speed**2)
-- 
2.43.0


From af5a512fdb75b6feb663a1dc726dc49ca600c9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 51/72] fix: the Vasicek bond price as of a purchase date
 discounts from that date

---
 .../affine_yield_curve_models/vasicek_model.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 2af6909..33556be 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -229,7 +229,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        self._create_bond_price_coeffs(maturity_date)
+        self._create_bond_price_coeffs(maturity_date, purchase_date)
         return math.exp(self.price_state_variable_coeffs['intercept']
                         + self.price_state_variable_coeffs['coefficient'] * self(purchase_date))
 
-- 
2.43.0


From 598688fd1f0538502bf0294b31749fc351ef174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 52/72] fix: the Vasicek bond yield as of a purchase date
 accrues from that date

---
 .../affine_yield_curve_models/vasicek_model.py           | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 33556be..2fcf183 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -205,12 +205,15 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
 
         return {'intercept': intercept_deriv, 'coefficient': -exp_factor}
 
-    def _create_bond_yield_coeffs(self, maturity_date) -> None:
+    def _create_bond_yield_coeffs(self, maturity_date: date, purchase_date: Optional[date | datetime] = None) -> None:
         """
         Overrides the class method for setting the coefficients for calculating a zero-coupon bond yield.
         Reference:  Pages 165-171 of Rebonato *Bond Pricing and Yield Curve Modeling*.
         """
-        accrual = DayCountCalculator.compute_accrual_length(self.start_date_time,
+        if purchase_date is None:
+            purchase_date = self.start_date_time
+
+        accrual = DayCountCalculator.compute_accrual_length(purchase_date,
                                                             maturity_date,
                                                             self.day_count_convention)
         coefficient = -(1 - math.exp(-self.reversion_speed * accrual)) / self.reversion_speed
@@ -243,7 +246,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        self._create_bond_yield_coeffs(maturity_date)
+        self._create_bond_yield_coeffs(maturity_date, purchase_date)
         yield_value = self.yield_state_variable_coeffs['intercept'] \
                       + self.yield_state_variable_coeffs['coefficient'] * self(purchase_date)
 
-- 
2.43.0


From 346a73d664bbf94776c62d928bd48d7a7e41c212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 53/72] fix: the Vasicek model answers to the bond yield method
 of affine models

---
 .../affine_yield_curve_models/vasicek_model.py            | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 2fcf183..1f5e35a 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -252,6 +252,14 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
 
         return yield_value
 
+    def zero_coupon_bond_yield(self,
+                               maturity_date: date | datetime,
+                               purchase_date: Optional[date | datetime] = None) -> float:
+        """
+        Overrides the abstract class method, under the name which all affine models share.
+        """
+        return self.zero_coupon_yield(maturity_date=maturity_date, purchase_date=purchase_date)
+
     def yield_convexity(self, maturity_date: date | datetime) -> float:
         """
         Calculates the theoretical convexity of the Vasicek Model in yield terms. I.e., it calculates
-- 
2.43.0


From d2375fe1339db9b16f02957cd15913929aee48cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 54/72] fix: the Vasicek price convexities as of a purchase
 date use the yield volatilities of that date

---
 .../affine_yield_curve_models/vasicek_model.py      | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 1f5e35a..a4167a3 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -293,20 +293,25 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         bond_prices = np.array([self.zero_coupon_bond_price(maturity_date=maturity_date, purchase_date=purchase_date)
                                 for maturity_date in maturity_dates])
 
-        volatilities = np.array([self.yield_volatility(maturity_date=maturity_date)
+        volatilities = np.array([self.yield_volatility(maturity_date=maturity_date, purchase_date=purchase_date)
                         for maturity_date in maturity_dates])
 
         return -0.5 * accruals**2 * bond_prices * volatilities**2
 
 
-    def yield_volatility(self, maturity_date: date | datetime) -> float:
+    def yield_volatility(self,
+                         maturity_date: date | datetime,
+                         purchase_date: Optional[date | datetime] = None) -> float:
         """
         Returns the volatility for a zero-coupon bond's yield for time T-maturity bonds.
         """
-        accrual = DayCountCalculator.compute_accrual_length(self.start_date_time,
+        if purchase_date is None:
+            purchase_date = self.start_date_time
+
+        accrual = DayCountCalculator.compute_accrual_length(purchase_date,
                                                             maturity_date,
                                                             self.day_count_convention)
-        self._create_bond_price_coeffs(maturity_date)
+        self._create_bond_price_coeffs(maturity_date, purchase_date)
         return -(self.price_state_variable_coeffs['coefficient'] / accrual) * self.volatility
 
     def instantaneous_forward_rate(self,
-- 
2.43.0


From 598339298a4199d108d70cd67f89c466f97fe384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 55/72] fix: multivariate Vasicek models which cannot be
 calibrated can be created

---
 .../affine_yield_curve_models/vasicek_model.py        | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index a4167a3..cb0d8c2 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -5,7 +5,6 @@ Reference, *Fixed Income Securities, 4th Ed.* by Tuckman and Serrat, page 205.
 Unit tests are contained in
 fixedIncome.tests.test_stochastics.test_short_rate_models.test_affine_yield_curve_models.test_vasicek_model.py
 """
-from abc import abstractmethod
 import itertools
 import math
 from datetime import datetime, date, timedelta
@@ -457,27 +456,29 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
             state_variables_diffusion_process=diffusion_process
         )
 
+    # Calibration hooks, only needed by the models which can be calibrated
+
     @property
-    @abstractmethod
     def parameter_calibration_dict(self) -> dict:
         """
         Returns the dictionary containing list of parameters used for calibration.
         """
+        raise NotImplementedError(f'{type(self).__name__} does not support calibration.')
 
-    @abstractmethod
     def set_volatiltiy_parameters_from_dict(self) -> None:
         """ Takes the volatility parameter values stored in the param dict and sets the
         appropriate model parameters. """
+        raise NotImplementedError(f'{type(self).__name__} does not support calibration.')
 
-    @abstractmethod
     def set_shape_parameters_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
+        raise NotImplementedError(f'{type(self).__name__} does not support calibration.')
 
-    @abstractmethod
     def set_state_variables_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
+        raise NotImplementedError(f'{type(self).__name__} does not support calibration.')
 
 
     def expected_state_variable_mean(self,
-- 
2.43.0


From cb0e8bcd6e0e7acede11eab8a8024a7cca8e01f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 56/72] fix: the covariance of the state variables holds for
 reversion matrices which are not diagonal

---
 .../affine_yield_curve_models/vasicek_model.py                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index cb0d8c2..437e418 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -552,9 +552,9 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         broadcast_mat = np.ones((self.dimension, self.dimension)) * self.reversion_matrix_eigenvalues
         sum_eigenvalues = broadcast_mat + broadcast_mat.T
         one_minus_exp_eigen_sum = 1 - np.exp(-sum_eigenvalues * accrual)
-        H_mat = self.reversion_matrix_eigenvectors_inv @ self.C_mat @ self.reversion_matrix_eigenvectors
+        H_mat = self.reversion_matrix_eigenvectors_inv @ self.C_mat @ self.reversion_matrix_eigenvectors_inv.T
         covar = one_minus_exp_eigen_sum * H_mat / sum_eigenvalues
-        return covar
+        return self.reversion_matrix_eigenvectors @ covar @ self.reversion_matrix_eigenvectors.T
 
 
     def short_rate_variance(self,
-- 
2.43.0


From 60b09ac135263af0cb37145df6f1587986f949c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 57/72] fix: the maturity derivative of the price coefficients
 holds for reversion matrices which are not symmetric

---
 .../affine_yield_curve_models/vasicek_model.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 437e418..b72640f 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -935,7 +935,7 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
                         np.diag(exp_negative_eigen_times_accrual) @ \
                         self.reversion_matrix_eigenvectors_inv
 
-        return -exp_reversion @ self.short_rate_coefficients
+        return -exp_reversion.T @ self.short_rate_coefficients
 
     def _calculate_intercept_deriv_wrt_maturity(self, accrual: float) -> np.array:
         """
-- 
2.43.0


From 2867fbf522b747c098168c6ca6d5a0ce3bb3e0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 58/72] fix: forward rate covariances can be calculated for any
 iterable of maturity dates

---
 .../affine_yield_curve_models/vasicek_model.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index b72640f..b15960d 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -855,11 +855,11 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
+        maturity_dates = list(maturity_dates)
         if min(maturity_dates) <= purchase_date:
             raise ValueError(
                 f'Minimum maturity datetime {min(maturity_dates)} can not be less than or equal to the purchase datetime {purchase_date}.')
 
-        maturity_dates = list(maturity_dates)
         B_mat = np.empty((self.dimension, len(maturity_dates)))
         for index, maturity in enumerate(maturity_dates):
             self._create_bond_yield_coeffs(maturity_date=maturity, purchase_date=purchase_date)
-- 
2.43.0


From 932a6276cde5b33423660b968ae1f796ff8589be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 59/72] fix: the yield volatility of a bond which matures at
 the purchase date is refused

---
 .../affine_yield_curve_models/vasicek_model.py                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index b15960d..3b79fcd 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -825,8 +825,8 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        #if maturity_date <= purchase_date:
-        #    raise ValueError(f'Maturity datetime {maturity_date} can not be less than or equal to the purchase datetime {purchase_date}.')
+        if not DayCountCalculator.compute_accrual_length(purchase_date, maturity_date, self.day_count_convention) > 0.0:
+            raise ValueError(f'Maturity datetime {maturity_date} can not be less than or equal to the purchase datetime {purchase_date}.')
 
         covar_mat = self.yield_covariance_matrix(maturity_dates=[maturity_date], purchase_date=purchase_date)
         return math.sqrt(float(covar_mat))
-- 
2.43.0


From 3aa91df2383bd7d2dd0b816ca75935198fc7a37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 60/72] fix: the factorized calibrator imports the day count
 calculator it uses

---
 fixedIncome/src/stochastics/calibrators/factorized_calibrator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py b/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
index 3344fae..47c49b5 100644
--- a/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
+++ b/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
@@ -16,6 +16,7 @@ from typing import Iterable, NamedTuple
 from datetime import date
 import numpy as np
 from scipy.optimize import minimize
+from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
 from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import MultivariateVasicekModel, VasicekModel, CalibrationParamterType
 from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.doubly_mean_reverting_vasicek import DoublyMeanRevertingVasicek
 
-- 
2.43.0


From 53803b4c84b3016fdc4e440d773ef52213bf16db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 61/72] fix: a doubly mean reverting model keeps the state
 variables it is created with

---
 .../doubly_mean_reverting_vasicek.py                         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py
index 7477410..773ef81 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py
@@ -42,7 +42,7 @@ class DoublyMeanRevertingVasicek(MultivariateVasicekModel):
         self.long_term_volatility = long_term_volatility
         self.short_rate_long_term_correlation = short_rate_long_term_correlation
 
-        self.starting_state_variables = np.empty((2, ))
+        self.starting_state_variables = np.zeros((2, ))
 
         reversion_level = np.array([self.long_term_mean, self.long_term_mean])
 
@@ -101,6 +101,9 @@ class DoublyMeanRevertingVasicek(MultivariateVasicekModel):
             'dt': dt,
         }
         new_model = cls(**param_dict)
+        new_model.parameter_calibration_dict[CalibrationParamterType.STATE_VARIABLES] = list(
+            new_param_calibration_dict[CalibrationParamterType.STATE_VARIABLES])
+        new_model.set_state_variables_from_dict()
         new_model.generate_path(
             starting_state_space_values=new_param_calibration_dict[CalibrationParamterType.STATE_VARIABLES],  # TODO: why was [0] index here?
             set_path=True,
-- 
2.43.0


From 2934d9058bc4917fc5e8fe8ba330623f44af043c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 62/72] fix: the factorized calibrator starts from the
 parameters of the model rather than at a defective reversion matrix

---
 .../src/stochastics/calibrators/factorized_calibrator.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py b/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
index 47c49b5..b5c115b 100644
--- a/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
+++ b/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
@@ -86,7 +86,7 @@ class VolatilityFactorizedCalibrator:
                        for accrual, pred_vol, actual_vol in zip(vol_accruals, predicted_volatilities, self.volatility_inputs)))
             return error
 
-        initial_volatility_params = np.array([0.01 for _ in range(len(model_vol_params))])
+        initial_volatility_params = np.array(model_vol_params, dtype=float)
 
         vol_min_result = minimize(fun=volatility_loss_function,
                                   #method='Nelder-Mead',
@@ -130,7 +130,7 @@ class VolatilityFactorizedCalibrator:
                        for accrual, pred_price, actual_price in zip(price_accruals, predicted_prices, self.price_inputs)))
             return error
 
-        initial_shape_state_params = np.array([0.01 for _ in range(len(model_shape_params) + len(model_state_params))])
+        initial_shape_state_params = np.array(list(model_shape_params) + list(model_state_params), dtype=float)
 
         price_min_result = minimize(fun=price_loss_function,
                                   #method='Nelder-Mead',
-- 
2.43.0


From 522e8599af5b6097113dce2dcd3ba563d320d547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 63/72] fix: the factorized calibrator does not try parameters
 without a volatility matrix

---
 .../src/stochastics/calibrators/factorized_calibrator.py       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py b/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
index b5c115b..aec5f92 100644
--- a/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
+++ b/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
@@ -92,7 +92,8 @@ class VolatilityFactorizedCalibrator:
                                   #method='Nelder-Mead',
                                   x0=initial_volatility_params,
                                   tol=1E-5,
-                                  bounds=[(0.0, 1.0) for _ in range(len(initial_volatility_params))],
+                                  # speeds and volatilities are positive, and no correlation is perfect
+                                  bounds=[(1E-6, 1.0)] * (len(initial_volatility_params) - 1) + [(-0.999, 0.999)],
                                   options={'disp': True}
                                   )
         return vol_min_result
-- 
2.43.0


From bf9f9bd6015e3a467d953849146bf9a483721efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 64/72] fix: the factorized calibrator returns the optimum
 rather than the last parameters it tried

---
 .../src/stochastics/calibrators/factorized_calibrator.py       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py b/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
index aec5f92..dcdb954 100644
--- a/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
+++ b/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
@@ -96,6 +96,7 @@ class VolatilityFactorizedCalibrator:
                                   bounds=[(1E-6, 1.0)] * (len(initial_volatility_params) - 1) + [(-0.999, 0.999)],
                                   options={'disp': True}
                                   )
+        model.parameter_calibration_dict[CalibrationParamterType.VOLATILITY][:] = list(vol_min_result.x)
         return vol_min_result
 
 
@@ -140,6 +141,8 @@ class VolatilityFactorizedCalibrator:
                                   bounds=[(0.0, 1.0) for _ in range(len(initial_shape_state_params))],
                                   options={'disp': True}
                                   )
+        model.parameter_calibration_dict[CalibrationParamterType.SHAPE][:] = list(price_min_result.x[:len(model_shape_params)])
+        model.parameter_calibration_dict[CalibrationParamterType.STATE_VARIABLES][:] = list(price_min_result.x[len(model_shape_params):])
         return price_min_result
 
     def calibrate(self, model: MultivariateVasicekModel | VasicekModel) -> None:
-- 
2.43.0


From 5e3b191be710068f52eb9fb3fafa150cd8b9e2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 65/72] fix: multivariate Vasicek prices and covariances
 account for a correlated Brownian motion

---
 .../affine_yield_curve_models/vasicek_model.py                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 3b79fcd..3fa7764 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -435,7 +435,7 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
 
         self.reversion_matrix_eigenvalues, self.reversion_matrix_eigenvectors = np.linalg.eig(self.reversion_matrix)
         self.reversion_matrix_eigenvectors_inv = np.linalg.inv(self.reversion_matrix_eigenvectors)
-        self.C_mat = self.volatility_matrix @ self.volatility_matrix.T
+        self.C_mat = self.volatility_matrix @ brownian_motion.correlation_matrix @ self.volatility_matrix.T
 
         drift_diffusion_collection = {}
         for i in range(brownian_motion.dimension):
@@ -655,7 +655,7 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
             B_t_times_B_t_transpose = price_coefficients @ price_coefficients.T
             D_mat += bond_price * weight * B_t_times_B_t_transpose
 
-        return 0.5 * sum(np.diag(self.volatility_matrix.T @ D_mat @ self.volatility_matrix))
+        return 0.5 * np.trace(D_mat @ self.C_mat)
 
     def zero_coupon_bond_yield(self, maturity_date: date, purchase_date: Optional[date | datetime] = None) -> float:
         """
-- 
2.43.0


From 48189ed12f56bab893d96cb03af8a339c0a346c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:52 +0000
Subject: [PATCH 66/72] fix: assets of a portfolio with the same knot date
 share one key rate

---
 fixedIncome/src/portfolio/base_portfolio.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/portfolio/base_portfolio.py b/fixedIncome/src/portfolio/base_portfolio.py
index 9577ed3..65d705d 100644
--- a/fixedIncome/src/portfolio/base_portfolio.py
+++ b/fixedIncome/src/portfolio/base_portfolio.py
@@ -47,10 +47,11 @@ class Portfolio:
     def to_key_rate_collection(self, day_count_convention: DayCountConvention) -> KeyRateCollection:
         """
         Takes a portfolio and returns a KeyRateCollection, where each
-        asset in the portfolio has a corresponding KeyRate in the collection.
+        asset in the portfolio has a corresponding KeyRate in the collection. Assets with the same
+        knot date share one.
         """
-        kr_list = [KeyRate(day_count_convention=day_count_convention,
-                           key_rate_date=portfolio_asset.asset.to_knot_value_pair().knot) for portfolio_asset in self]
+        knot_dates = {portfolio_asset.asset.to_knot_value_pair().knot for portfolio_asset in self}
+        kr_list = [KeyRate(day_count_convention=day_count_convention, key_rate_date=knot_date) for knot_date in knot_dates]
 
         return KeyRateCollection(kr_list)
 
-- 
2.43.0


From 8103882564cadf5a7ed7eef5419d160c12347591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:52 +0000
Subject: [PATCH 67/72] fix: a key rate keeps its bump when the assets cannot
 be valued

---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 3e066e4..135af0c 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -126,13 +126,16 @@ class YieldCurve(Curve):
             (PV(plus key rate adjustment) - PV) / ONE BASIS POINT
         """
         original_bump_val = key_rate.bump_val
-        key_rate.set_bump_val(-ONE_BASIS_POINT/2)
-        pv_with_negative_adjustment = self.present_value(assets, key_rate)
+        try:
+            key_rate.set_bump_val(-ONE_BASIS_POINT/2)
+            pv_with_negative_adjustment = self.present_value(assets, key_rate)
 
-        key_rate.set_bump_val(ONE_BASIS_POINT / 2)
-        pv_with_positive_adjustment = self.present_value(assets, key_rate)
+            key_rate.set_bump_val(ONE_BASIS_POINT / 2)
+            pv_with_positive_adjustment = self.present_value(assets, key_rate)
+
+        finally:
+            key_rate.set_bump_val(original_bump_val)  # reset key rate bump value, also if the assets cannot be valued
 
-        key_rate.set_bump_val(original_bump_val)  # reset key rate bump value
         key_rate_deriv = (pv_with_positive_adjustment - pv_with_negative_adjustment) / ONE_BASIS_POINT
         return key_rate_deriv
 
-- 
2.43.0


From 2a9ed6a2eaff428a74add186b4c2512bab12182e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:07 +0000
Subject: [PATCH 68/72] fix: the Vasicek model takes its starting short rate
 from the state variables of the calibration dictionary

---
 .../affine_yield_curve_models/vasicek_model.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 3fa7764..b348b99 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -129,7 +129,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
     def set_state_variables_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
-        new_params = self.parameter_calibration_dict[CalibrationParamterType.SHAPE]
+        new_params = self.parameter_calibration_dict[CalibrationParamterType.STATE_VARIABLES]
         self._calibrated_starting_short_rate = new_params[0]
 
 
-- 
2.43.0


From c43271702796aa9574599b83307c3204a2374d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:37 +0000
Subject: [PATCH 69/72] fix: the Vasicek model stays consistent when its
 parameters are set from the calibration dictionary

---
 .../affine_yield_curve_models/vasicek_model.py         | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index b348b99..2990c4d 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -119,12 +119,22 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         new_params = self.parameter_calibration_dict[CalibrationParamterType.VOLATILITY]
         self._volatility = new_params[0]
         self._reversion_speed = new_params[1]
+        self._update_derived_parameters()
 
     def set_shape_parameters_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
         new_params = self.parameter_calibration_dict[CalibrationParamterType.SHAPE]
         self._long_term_mean = new_params[0]
+        self._update_derived_parameters()
+
+    def _update_derived_parameters(self) -> None:
+        """ Brings what was derived from the model parameters in step with their new values. """
+        self.convexity_limit = -self.volatility**2 / (2 * self.reversion_speed**2)
+        self.drift_diffusion_pair = vasicek_drift_diffusion(reversion_level=self.long_term_mean,
+                                                            reversion_scale=self.reversion_speed,
+                                                            volatility=self.volatility)
+        self.drift_diffusion_collection['short rate'] = self.drift_diffusion_pair
 
     def set_state_variables_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
-- 
2.43.0


From cdb6c7ab843ecb99c7a6a2717a8ba2e9ae0ff8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:50 +0000
Subject: [PATCH 70/72] fix: day counts take the time of day of subclasses of
 datetime into account

---
 fixedIncome/src/scheduling_tools/day_count_calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/scheduling_tools/day_count_calculator.py b/fixedIncome/src/scheduling_tools/day_count_calculator.py
index 40811b4..db40efc 100644
--- a/fixedIncome/src/scheduling_tools/day_count_calculator.py
+++ b/fixedIncome/src/scheduling_tools/day_count_calculator.py
@@ -18,7 +18,7 @@ class DayCountCalculator(object):
     @staticmethod
     def _split_into_day_and_fraction(date_obj: date | datetime) -> tuple[date, float]:
         """ Splits a date or datetime into its calendar day and the elapsed fraction of that day. """
-        if type(date_obj) != datetime:
+        if not isinstance(date_obj, datetime):  # also subclasses, e.g. pandas timestamps
             return date_obj, 0.0
         elapsed = date_obj - datetime.combine(date_obj.date(), time(0))
         return date_obj.date(), elapsed.total_seconds() / DayCountCalculator.SECONDS_PER_DAY
-- 
2.43.0


From 751a240644708ac3756641676ac8a1a32c1f3301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:54 +0000
Subject: [PATCH 71/72] fix: a curve keeps its knots in date order when one of
 them is replaced

---
 fixedIncome/src/curves/base_curve.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/curves/base_curve.py b/fixedIncome/src/curves/base_curve.py
index 595ab68..9a461ea 100644
--- a/fixedIncome/src/curves/base_curve.py
+++ b/fixedIncome/src/curves/base_curve.py
@@ -134,9 +134,13 @@ class Curve(Callable):
         self._create_interpolation_object()
 
     def reset_interpolation_value(self, new_value: KnotValuePair, index: int) -> None:
-        """ Resets the interpolation based on a new KnotValuePair located at the provided index. """
+        """
+        Resets the interpolation based on a new KnotValuePair located at the provided index.
+        The values stay in the order of their knots, also if the new knot lies beyond a neighbouring one.
+        """
         #TODO: Create checks for knot_dates
         self._interpolation_values[index] = new_value
+        self._interpolation_values.sort(key=lambda interp_val: interp_val.knot)
         self._create_interpolation_object()
 
 
-- 
2.43.0


From bcd01e5a7fdc68e269d5836e5f869cf2cdeee8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:32 +0000
Subject: [PATCH 72/72] fix: integrate the short rate from the first requested
 datetime

---
 .../src/stochastics/short_rate_models/base_short_rate_model.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 15e6261..d0789c6 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -110,7 +110,7 @@ class ShortRateModel(DiffusionProcess):
                                                                increment=self.dt,
                                                                max_dates=1_000_000)
         running_integral = 0.0
-        old_time_accrual = 0
+        old_time_accrual = DayCountCalculator.compute_accrual_length(start_date_time, datetimes[0], self.day_count_convention)
         interpolation_values = [0.0]
 
         for start_dt, end_dt in itertools.pairwise(datetimes):
-- 
2.43.0

