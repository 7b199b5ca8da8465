From 8d078f7d0067d20135fac0dc2b96ecae0f0a8def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 01/79] fix: keep cached high-precision values per object, not
 per class

---
 forecaster/utility/precision.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/forecaster/utility/precision.py b/forecaster/utility/precision.py
index a2e85cd..f641069 100644
--- a/forecaster/utility/precision.py
+++ b/forecaster/utility/precision.py
@@ -105,11 +105,9 @@ class HighPrecisionOptionalPropertyCached(HighPrecisionOptionalProperty):
     for examples and further information.
     """
 
-    def __init__(self):
-        super().__init__()
-        # Cached values (for efficient calls to __get__):
-        self._high_precision_cache = None
-        self._high_precision_value_cache = None
+    def _cache_name(self):
+        """ The name of the attribute of `obj` holding its cached value. """
+        return self.private_name + '_high_precision_cache'
 
     def __get__(self, obj, objtype=None, *, high_precision=None):
         # When called by metaclass on class init, `obj` is None:
@@ -126,14 +124,16 @@ class HighPrecisionOptionalPropertyCached(HighPrecisionOptionalProperty):
                 return getattr(obj, self.private_name)
 
         # Check to see if the previous return value is cached and can
-        # be used for these inputs:
+        # be used for these inputs. (The cache is stored on `obj`; this
+        # descriptor is shared by all instances of the class.)
+        cache = getattr(obj, self._cache_name(), None)
         if (
                 # Confirm we have a cached value (this fails if a new
                 # value has been set since the last call to __get__):
-                self._high_precision_value_cache is not None and
+                cache is not None and
                 # Confirm that the conversion method is the same:
-                self._high_precision_cache == high_precision):
-            return self._high_precision_value_cache
+                cache[0] == high_precision):
+            return cache[1]
 
         # If we can't use the cache, calculate a fresh value:
         value = super().__get__(
@@ -143,15 +143,14 @@ class HighPrecisionOptionalPropertyCached(HighPrecisionOptionalProperty):
             high_precision=high_precision)
 
         # Update the cache to make the next call more efficient:
-        self._high_precision_value_cache = value
-        self._high_precision_cache = high_precision
+        setattr(obj, self._cache_name(), (high_precision, value))
 
         return value
 
     def __set__(self, obj, value):
         super().__set__(obj, value)
         # Invalidate the cache
-        self._high_precision_value_cache = None
+        setattr(obj, self._cache_name(), None)
 
 class HighPrecisionOptional(object):
     """ Supports both native and high-precision numerical types.
-- 
2.43.0


From 9b3dd8e34ef675256f98cc52599afd2d9844e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 02/79] fix: set linked outflow limits on the outflow links

---
 forecaster/accounts/linked_limit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/accounts/linked_limit.py b/forecaster/accounts/linked_limit.py
index ac5b669..e5b9b0a 100644
--- a/forecaster/accounts/linked_limit.py
+++ b/forecaster/accounts/linked_limit.py
@@ -111,7 +111,7 @@ class LinkedLimitAccount(Account):
     @max_outflow_limit.setter
     def max_outflow_limit(self, value):
         """ Sets max_outflow_limit. """
-        self._set_limit(self.max_inflow_link, value)
+        self._set_limit(self.max_outflow_link, value)
 
     @property
     def min_outflow_limit(self):
@@ -122,7 +122,7 @@ class LinkedLimitAccount(Account):
     @min_outflow_limit.setter
     def min_outflow_limit(self, value):
         """ Sets min_outflow_limit. """
-        self._set_limit(self.min_inflow_link, value)
+        self._set_limit(self.min_outflow_link, value)
 
     def _get_limit(self, link, default=None):
         """ Gets the limit for a given linked group of accounts.
-- 
2.43.0


From 69685fa04ac112576da5ee48b5749badb1d995ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 03/79] fix: make the account's mapping methods consistent with
 each other

---
 forecaster/accounts/base.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 6f4fc12..ca66b1a 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -853,15 +853,18 @@ class Account(TaxSource):
         return when in self._transactions
 
     def __getitem__(self, key):
-        return self._transactions[key]
+        when = when_conv(key, high_precision=self.high_precision)
+        return self._transactions[when]
 
     def __setitem__(self, key, value):
-        if key in self._transactions:
-            del self._transactions[key]
-        self.add_transaction(value=value, when=key)
+        when = when_conv(key, high_precision=self.high_precision)
+        if when in self._transactions:
+            del self._transactions[when]
+        self.add_transaction(value=value, when=when)
 
     def __delitem__(self, key):
-        del self._transactions[key]
+        when = when_conv(key, high_precision=self.high_precision)
+        del self._transactions[when]
 
     def keys(self):
         """ The timings of the account's transactions. """
@@ -877,7 +880,8 @@ class Account(TaxSource):
 
     def get(self, key, default=None):
         """ Gets the transaction value at a particular timing. """
-        self._transactions.get(key, default=default)
+        when = when_conv(key, high_precision=self.high_precision)
+        return self._transactions.get(when, default)
 
     def clear(self):
         """ Clears all of the account's transactions. """
-- 
2.43.0


From 8eec3d2f1a1a9307b2db9928ed58f7f653d43abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 04/79] fix: find when a balance is reached from a zero balance
 and in high precision

---
 forecaster/accounts/base.py |  7 ++++++-
 forecaster/accounts/util.py | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index ca66b1a..685c598 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -951,9 +951,14 @@ class Account(TaxSource):
 
         # Determine when we'll reach the desired amount, assuming
         # no further transactions:
-        time = when + time_to_value(
+        delay = time_to_value(
             self.rate, balance, value, nper=self.nper,
             high_precision=self.high_precision)
+        if delay < 0:
+            # The balance is moving away from `value`, so it won't get
+            # there before (at least) the next transaction:
+            delay = self.precision_convert(float('inf'))
+        time = when + delay
 
         # Now look ahead to the next transaction and, if it happens
         # before `time`, recurse onto that transaction's timing:
diff --git a/forecaster/accounts/util.py b/forecaster/accounts/util.py
index 904a7b9..3e38880 100644
--- a/forecaster/accounts/util.py
+++ b/forecaster/accounts/util.py
@@ -116,11 +116,12 @@ def accumulation_function_inverse(accum, rate, nper=1, *, high_precision=None):
     if nper is None:
         # math.exp(rate * t) throws a warning, since there's an
         # implicit float-Decimal multiplication.
-        timing = math.log(accum, high_precision(math.e)) / rate
+        timing = high_precision(math.log(accum)) / rate
     # Otherwise use the discrete formula: a=(1+r/n)^nt
     # Derive from this t=log(a,1+r/n)/n
     else:
-        timing = math.log(accum, high_precision(1) + rate / nper) / nper
+        timing = high_precision(
+            math.log(accum, high_precision(1) + rate / nper)) / nper
 
     return timing
 
@@ -163,6 +164,15 @@ def time_to_value(rate, value_now, value_then, nper=1, *, high_precision=None):
         A Decimal object representing the time required to
         grow (or shrink) from `value_now` to `value_then`.
     """
+    # Growth never moves a value off zero, onto zero, or past zero, so
+    # such a `value_then` is never reached:
+    if value_now != value_then and (
+            value_now == 0 or value_then / value_now <= 0):
+        never = float('inf')
+        return high_precision(never) if high_precision is not None else never
+    # Avoid dividing by zero if there's nothing to do:
+    if value_now == value_then:
+        return high_precision(0) if high_precision is not None else 0
     return accumulation_function_inverse(
         accum=value_then/value_now, rate=rate, nper=nper,
         high_precision=high_precision)
-- 
2.43.0


From decc525072e768e763febef847167fe37339f2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 05/79] fix: convert debt payments to the debt's precision

---
 forecaster/accounts/debt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/accounts/debt.py b/forecaster/accounts/debt.py
index 4e13510..b991c56 100644
--- a/forecaster/accounts/debt.py
+++ b/forecaster/accounts/debt.py
@@ -77,7 +77,7 @@ class Debt(Account):
 
     @minimum_payment.setter
     def minimum_payment(self, val):
-        self._minimum_payment = val # Money value
+        self._minimum_payment = self.precision_convert(val) # Money value
 
     @property
     def accelerated_payment(self):
@@ -86,7 +86,7 @@ class Debt(Account):
 
     @accelerated_payment.setter
     def accelerated_payment(self, val):
-        self._accelerated_payment = val # Money value
+        self._accelerated_payment = self.precision_convert(val) # Money value
 
     @property
     def min_inflow_limit(self):
-- 
2.43.0


From 3d124d91d976b62b424e107cb2fc0c741007b43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 06/79] fix: incur living expenses in years with no income

---
 forecaster/forecast/living_expenses.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecast/living_expenses.py b/forecaster/forecast/living_expenses.py
index e7d3a48..d971692 100644
--- a/forecaster/forecast/living_expenses.py
+++ b/forecaster/forecast/living_expenses.py
@@ -49,8 +49,16 @@ class LivingExpensesForecast(SubForecast):
         # living expenses every time each of them gets paid
         # proportionately to their share of net income.
         total_income = sum(person.net_income for person in self.people)
-        income_weights = {
-            person: person.net_income / total_income for person in self.people}
+        if total_income != 0:
+            income_weights = {
+                person: person.net_income / total_income
+                for person in self.people}
+        else:
+            # With no income (e.g. where everyone is retired), there are
+            # no shares to speak of, so split living expenses equally:
+            income_weights = {
+                person: self.precision_convert(1) / len(self.people)
+                for person in self.people}
         for person in self.people:
             self.add_transaction(
                 self.living_expenses * income_weights[person],
-- 
2.43.0


From f509fffe5802b5bc1aca814c390998aa61532f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 07/79] fix: count payments to debts as debt repayment

---
 forecaster/forecast/saving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/forecast/saving.py b/forecaster/forecast/saving.py
index 9c24e79..101e0db 100644
--- a/forecaster/forecast/saving.py
+++ b/forecaster/forecast/saving.py
@@ -75,7 +75,7 @@ class SavingForecast(SubForecast):
         # class is all about.
         return sum(
             sum(self.account_transactions[account].values())
-            for account in self.retirement_accounts
+            for account in self.debt_accounts
             if account in self.account_transactions)
 
     @recorded_property_cached
-- 
2.43.0


From b8dbf01776c3308b21e28c0aed527a2b146dcb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 08/79] fix: track tax withheld on withdrawals year by year

---
 forecaster/forecast/withdrawal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/forecaster/forecast/withdrawal.py b/forecaster/forecast/withdrawal.py
index fbdc27e..82621a4 100644
--- a/forecaster/forecast/withdrawal.py
+++ b/forecaster/forecast/withdrawal.py
@@ -123,6 +123,12 @@ class WithdrawalForecast(SubForecast):
             # Keep track of total tax withheld:
             self.tax_withheld += new_tax_withheld
 
+    def next_year(self):
+        """ Adds a year to the forecast. """
+        super().next_year()
+        # Nothing has been withheld yet in the new year:
+        self.tax_withheld = self.precision_convert(0) # Money value
+
     def undo_transactions(self):
         """ Reverses all transactions cause by this subforecast. """
         super().undo_transactions()
-- 
2.43.0


From f14dd962e0ffe873cda7b2bb03818482fcde3930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 09/79] fix: keep each year's subforecast transactions and undo
 them once

---
 forecaster/forecast/subforecast.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index bb4e904..a17053e 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -73,7 +73,8 @@ class TransactionDict(defaultdict):
         # NOTE: We can't use a frozenset; it requires hashable values.
 
         # Translation between key and id(key) is handled by __iter__
-        return sorted(self.__iter__())  # Returns a list
+        # (and keys needn't be orderable, so there's no sorting to do)
+        return list(self.__iter__())
 
 class SubForecast(Ledger):
     """ Generic class for implementing part of a financial forecast.
@@ -170,7 +171,9 @@ class SubForecast(Ledger):
         # are recorded with their current state:
         super().next_year()
         # There are no existing transactions at the start of the year:
-        self.transactions.clear()
+        # (Build a new object; the old one belongs to last year's history)
+        self._transactions = TransactionDict(
+            lambda: defaultdict(lambda: 0)) # Money value
         self._call_invoked = False
 
     def __call__(self, available):
@@ -207,6 +210,8 @@ class SubForecast(Ledger):
             if account is not None:
                 for when, value in self.transactions[account].items():
                     account[when] -= value
+        # They've been reversed, so don't reverse them again later:
+        self.transactions.clear()
         # This undoes the effect of __call__, so treat that
         # method as if it was never called:
         self._call_invoked = False
-- 
2.43.0


From fbb16c9b49e47bae69faaebe9eead49dceb5f26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 10/79] fix: treat a raise rate of None as no raise

---
 forecaster/person.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 0903948..dd1b5d9 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -254,7 +254,7 @@ class Person(TaxSource):
         # Treat setting the method to None as reverting to the default
         # rate parameter, which is Money(0).
         if val is None:
-            self.raise_rate_callable = 0
+            val = 0
         # Is raise_rate isn't callable, convert it to a suitable method:
         if not callable(val):  # Make callable if dict or scalar
             if isinstance(val, dict):
-- 
2.43.0


From 627a9c1c996a268e96a681e7d99a4f3054c00511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 11/79] fix: unlink a new spouse from their previous spouse

---
 forecaster/person.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/forecaster/person.py b/forecaster/person.py
index dd1b5d9..876ffdd 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -294,6 +294,10 @@ class Person(TaxSource):
         if val is not None:
             if not isinstance(val, Person):  # Spouse must be a Person
                 raise TypeError('Person: spouse must be of type Person')
+            # If the new spouse already has a spouse, unlink them too:
+            # pylint: disable=protected-access
+            if val._spouse is not None:
+                val._spouse._spouse = None
             # Assign to _spouse to avoid recursing on this method.
             # pylint: disable=protected-access
             # spouse is a Person, so this isn't accessing a protected
-- 
2.43.0


From c33a2f663a6872d7feeeba03cf0fab2383a907fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 12/79] fix: determine ages of people born on leap days

---
 forecaster/person.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 876ffdd..42c2cb7 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -224,7 +224,7 @@ class Person(TaxSource):
     @property
     def retirement_age(self):
         """ The age of the Person at retirement """
-        return relativedelta(self.retirement_date, self.birth_date).years
+        return self.age(self.retirement_date)
 
     @retirement_age.setter
     def retirement_age(self, val):
@@ -386,7 +386,8 @@ class Person(TaxSource):
 
         # Remember to check whether the month/day are earlier in `date`
         age = date.year - self.birth_date.year
-        if date.replace(self.birth_date.year) < self.birth_date:
+        # (for leap-day births, birthdays in other years are on Feb. 28)
+        if date < self.birth_date + relativedelta(years=age):
             age -= 1
 
         # We allow age to be negative, if that's what the caller wants.
-- 
2.43.0


From 0fdeaaa65884fd1c73c36a3bb39bb080555be9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 13/79] fix: keep a person's deductions and credits current
 with their accounts

---
 forecaster/person.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 42c2cb7..72f5106 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -398,13 +398,13 @@ class Person(TaxSource):
 
     # NOTE: Test overloading of recorded property by subclass
 
-    @recorded_property_cached
+    @recorded_property
     def tax_deduction(self):
         """ The `Person`'s tax deductions for the year. """
         return sum(
             (account.tax_deduction for account in self.accounts))
 
-    @recorded_property_cached
+    @recorded_property
     def tax_credit(self):
         """ The `Person`'s tax credits for the year. """
         return sum(
-- 
2.43.0


From e847e31f9ad6c7d7883228b15b5b0b04edeebd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 14/79] fix: use high-precision timings for frequency-only
 Timing inputs

---
 forecaster/utility/timing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forecaster/utility/timing.py b/forecaster/utility/timing.py
index 005fddd..ea25303 100644
--- a/forecaster/utility/timing.py
+++ b/forecaster/utility/timing.py
@@ -79,6 +79,8 @@ class Timing(dict):
             if isinstance(when, str) and when in FREQUENCY_MAPPING:
                 frequency = when
                 when = WHEN_DEFAULT  # default value
+                if high_precision is not None:
+                    when = high_precision(when)
             # Arguments might be str-valued; make them numeric:
             when = when_conv(when, high_precision=high_precision)
             frequency = frequency_conv(frequency)
-- 
2.43.0


From f0b10eee63b9428e1ba06a5e5a1420f3f90bbb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 15/79] fix: count each person's deductions and credits once

---
 forecaster/tax.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 52b744e..1965b48 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -403,14 +403,9 @@ class Tax(HighPrecisionOptional):
             float: The tax liability of the person.
         """
         taxable_income = person.taxable_income_history[year]
-        deduction = (
-            person.tax_deduction_history[year]
-            + self.deduction(person, year)
-            + deduction)
-        credit = (
-            person.tax_credit_history[year]
-            + self.credit(person, year)
-            + credit)
+        # (The person's own deductions and credits are included in these)
+        deduction = self.deduction(person, year) + deduction
+        credit = self.credit(person, year) + credit
         return self.tax_money(taxable_income, year, deduction, credit)
 
     def tax_people(self, people, year, deduction=None, credit=None):
-- 
2.43.0


From 3e790340df9b4db44f1826f8cd7c4a648ce48a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 16/79] fix: inflation-adjust brackets, not rates, when
 accumulating tax

---
 forecaster/tax.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 1965b48..ac6827f 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -213,12 +213,9 @@ class Tax(HighPrecisionOptional):
     def accum(self, year, bracket=None):
         """ The accumulated tax payable for a given tax bracket. """
         # If we don't have this accum, we'll need to generate it.
-        # add_brackets() does this for us.
+        # tax_brackets() does this for us.
         if year not in self._accum:
-            # Get the inflation-adjusted tax brackets for this year:
-            brackets = extend_inflation_adjusted(
-                self._tax_brackets, self.inflation_adjust, year)
-            self.add_brackets(brackets, year)
+            self.tax_brackets(year)
         if bracket is None:
             return self._accum[year]
         return self._accum[year][bracket]
-- 
2.43.0


From 2b86febe8af5eebb3f0aeac27337b780f180da90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 17/79] fix: determine taxes for any iterable of people

---
 forecaster/tax.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index ac6827f..29e157c 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -428,6 +428,9 @@ class Tax(HighPrecisionOptional):
         if credit is None:
             credit = {}
 
+        # Any iterable will do (but we need set operations below):
+        people = set(people)
+
         # Base case: If {} is passed, return $0.
         if not people:
             return self.precision_convert(0)
-- 
2.43.0


From aec2c41a3ce54246f3fdf4043fa25f42faad04b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 18/79] fix: copy tax brackets to avoid external mutation

---
 forecaster/tax.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 29e157c..eec2172 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -310,7 +310,8 @@ class Tax(HighPrecisionOptional):
         Also generates an `accum` dict based on the tax brackets.
         """
         year = int(year)
-        self._tax_brackets[year] = brackets
+        # Copy brackets (to avoid external mutation):
+        self._tax_brackets[year] = dict(brackets)
 
         self.add_accum(brackets, year)
 
-- 
2.43.0


From f2562e19c10ab6087df5e0e2571b05937a3584f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 19/79] fix: combine the brackets of multiple jurisdictions

---
 forecaster/tax.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index eec2172..b35c4b4 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -664,14 +664,8 @@ class TaxMulti(object):
 
     def tax_brackets(self, year, bracket=None):
         """ Combined tax brackets for year. """
-        # If `bracket` is provided, we return a scalar:
-        if bracket is not None:
-            return sum(
-                tax.tax_brackets(year=year, bracket=bracket)
-                for tax in self.jurisdictions)
-        # Otherwise we return a dict.
         # Get a dict for each jurisdiction:
-        brackets = (tax.tax_brackets(year=year) for tax in self.jurisdictions)
+        brackets = [tax.tax_brackets(year=year) for tax in self.jurisdictions]
         # Collect all the keys of the dicts (ignoring duplicates):
         bracket_keys = set.union(*(set(bracket) for bracket in brackets))
         combined_brackets = {}
@@ -682,14 +676,25 @@ class TaxMulti(object):
             combined_brackets[key] = sum(
                 bracket[
                     max(inner_key for inner_key in bracket if inner_key <= key)]
-                for bracket in brackets)
+                for bracket in brackets if min(bracket) <= key)
+        # If `bracket` is provided, we return a scalar:
+        if bracket is not None:
+            return combined_brackets[bracket]
         return combined_brackets
 
     def accum(self, year, bracket=None):
         """ The accumulated tax payable for a given tax bracket. """
-        return sum(
-            tax.accum(year=year, bracket=bracket)
-            for tax in self.jurisdictions)
+        # Accumulate over the combined brackets, since any one bracket
+        # might not be a bracket of every jurisdiction:
+        brackets = self.tax_brackets(year)
+        accum = {}
+        prev = min(brackets)
+        for key in sorted(brackets):
+            accum[key] = accum.get(prev, 0) + (key - prev) * brackets[prev]
+            prev = key
+        if bracket is not None:
+            return accum[bracket]
+        return accum
 
     def personal_deduction(self, year):
         """ Personal deduction for `year`. """
-- 
2.43.0


From 91f3f22e1c731aa62935c5504148824be1aa020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 20/79] fix: default to no extra deductions or credits in each
 jurisdiction

---
 forecaster/tax.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index b35c4b4..124fa55 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -702,7 +702,7 @@ class TaxMulti(object):
 
     def deduction(self, person, year):
         """ The deductions the person is eligible for. """
-        return self.jurisdictions[0].deductions(
+        return self.jurisdictions[0].deduction(
             person=person, year=year)
 
     def credit(self, person, year, deduction=None):
@@ -734,8 +734,8 @@ class TaxMulti(object):
             self, taxable_income, year, deductions=None, credits_=None):
         """ Returns taxes owing on a given amount of taxable income. """
         # Wrap args in defaultdicts to avoid key errors:
-        deductions = make_defaultdict(deductions)
-        credits_ = make_defaultdict(credits_)
+        deductions = make_defaultdict(deductions, lambda: 0)
+        credits_ = make_defaultdict(credits_, lambda: 0)
         # Add up all jurisdictions' tax treatment:
         return sum(
             tax.tax_money(
@@ -747,8 +747,8 @@ class TaxMulti(object):
             self, person, year, deductions=None, credits_=None):
         """ Returns tax treatment for an individual person. """
         # Wrap args in defaultdicts to avoid key errors:
-        deductions = make_defaultdict(deductions)
-        credits_ = make_defaultdict(credits_)
+        deductions = make_defaultdict(deductions, lambda: 0)
+        credits_ = make_defaultdict(credits_, lambda: 0)
         # Add up all jurisdictions' tax treatment:
         return sum(
             tax.tax_person(
-- 
2.43.0


From c3ed55f2da9e6dd2165e24a9cccf7b585148dd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 21/79] fix: use tax objects' precision for their timings

---
 forecaster/canada/tax.py | 1 +
 forecaster/tax.py        | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index b8d41e7..ad4931c 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -29,6 +29,7 @@ class TaxCanadaJurisdiction(Tax):
             inflation_adjust=inflation_adjustments,
             refund_timing=self.constants.TAX_REFUND_TIMING,
             payment_timing=self.constants.TAX_PAYMENT_TIMING,
+            high_precision=high_precision,
             **kwargs)
 
         self.jurisdiction = jurisdiction
diff --git a/forecaster/tax.py b/forecaster/tax.py
index 124fa55..8eca277 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -278,7 +278,8 @@ class Tax(HighPrecisionOptional):
     @payment_timing.setter
     def payment_timing(self, val):
         """ Sets `payment_timing`. """
-        self._payment_timing = Timing(val)
+        self._payment_timing = Timing(
+            val, high_precision=self.high_precision)
 
     @property
     def refund_timing(self):
@@ -288,7 +289,8 @@ class Tax(HighPrecisionOptional):
     @refund_timing.setter
     def refund_timing(self, val):
         """ Sets `refund_timing`. """
-        self._refund_timing = Timing(val)
+        self._refund_timing = Timing(
+            val, high_precision=self.high_precision)
 
     def marginal_bracket(self, taxable_income, year):
         """ The top tax bracket that taxable_income falls into. """
-- 
2.43.0


From 372bc013145e128bd2b2905f5d325f35e403b456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 22/79] fix: build allocation strategies from settings

---
 forecaster/forecaster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecaster.py b/forecaster/forecaster.py
index 41a3f29..6862c7a 100644
--- a/forecaster/forecaster.py
+++ b/forecaster/forecaster.py
@@ -491,5 +491,5 @@ class Forecaster(HighPrecisionOptional):
         other parameters.
         """
         return self.build_param(
-            Parameter.ALLOCATION_STRATEGY, AllocationStrategy, *args,
-            _special_builder=False, **kwargs)
+            Parameter.ALLOCATION_STRATEGY, *args,
+            param_type=AllocationStrategy, _special_builder=False, **kwargs)
-- 
2.43.0


From b4914d2b9af615a25dfad9db8455473bea332971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 23/79] fix: rebalance all-equity allocations and allocations
 with other assets

---
 forecaster/strategy/allocation.py | 41 ++++++++++++++-----------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/forecaster/strategy/allocation.py b/forecaster/strategy/allocation.py
index a4b2500..b8d9b23 100644
--- a/forecaster/strategy/allocation.py
+++ b/forecaster/strategy/allocation.py
@@ -232,30 +232,27 @@ class AllocationStrategy(Strategy):
                 other values are rebalanced accordingly so that
                 the sum of all allocation attributes is 1.
         """
+        # Any change to equities is offset by bonds and other in
+        # proportion to their current values (or by bonds alone if the
+        # allocation doesn't include either of them):
+        non_equity = allocation.bonds + allocation.other
+        if non_equity != 0:
+            bonds_weight = allocation.bonds / non_equity
+        else:
+            bonds_weight = 1
+
         if allocation.stocks > self.max_equity:
-            # Move the excess weighting of equity into bonds and other
-            # proportionately to their current values:
-            bonds = allocation.bonds + (
-                (allocation.stocks - self.max_equity)
-                * allocation.bonds / (allocation.bonds + allocation.other)
-            )
-            other = allocation.other + (
-                (allocation.stocks - self.max_equity)
-                * allocation.other / (allocation.bonds + allocation.other)
-            )
-            allocation = AssetAllocation(self.max_equity, bonds, other)
+            stocks = self.max_equity
         elif allocation.stocks < self.min_equity:
-            # Move weighting to equity from bonds and other
-            # proportionately to their current values:
-            bonds = allocation.bonds - (
-                (self.min_equity - allocation.stocks)
-                * allocation.bonds / (allocation.bonds + allocation.other)
-            )
-            other = allocation.other - (
-                (self.max_equity - allocation.stocks)
-                * allocation.other / (allocation.bonds + allocation.other)
-            )
-            allocation = AssetAllocation(self.min_equity, bonds, other)
+            stocks = self.min_equity
+        else:
+            return allocation
+
+        change = allocation.stocks - stocks
+        allocation = AssetAllocation(
+            stocks,
+            allocation.bonds + change * bonds_weight,
+            allocation.other + change * (1 - bonds_weight))
 
         return allocation
 
-- 
2.43.0


From d78849c0505c76081a007a381330c13399ace834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 24/79] fix: use high-precision timings for all scalar Timing
 inputs

---
 forecaster/utility/timing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/utility/timing.py b/forecaster/utility/timing.py
index ea25303..37f2316 100644
--- a/forecaster/utility/timing.py
+++ b/forecaster/utility/timing.py
@@ -79,10 +79,10 @@ class Timing(dict):
             if isinstance(when, str) and when in FREQUENCY_MAPPING:
                 frequency = when
                 when = WHEN_DEFAULT  # default value
-                if high_precision is not None:
-                    when = high_precision(when)
             # Arguments might be str-valued; make them numeric:
             when = when_conv(when, high_precision=high_precision)
+            if high_precision is not None:
+                when = high_precision(when)
             frequency = frequency_conv(frequency)
 
             # Build out multiple timings based on scalar inputs.
-- 
2.43.0


From 5e85ae6f3ddacba616b3e0d5a4d437b0dea7bd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 25/79] fix: save only when there is a surplus, leaving
 shortfalls to withdrawals

---
 forecaster/forecast/saving.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/forecaster/forecast/saving.py b/forecaster/forecast/saving.py
index 101e0db..ddb692f 100644
--- a/forecaster/forecast/saving.py
+++ b/forecaster/forecast/saving.py
@@ -49,9 +49,14 @@ class SavingForecast(SubForecast):
         # started on doing the updates:
         super().__call__(available)
 
-        accounts = set(self.retirement_accounts).union(self.debt_accounts)
-        self.account_transactions = self.transaction_strategy(
-            available, accounts=accounts)
+        # Only save if there's a surplus; shortfalls are met by
+        # withdrawals, which aren't this forecast's responsibility.
+        if sum(available.values()) > 0:
+            accounts = set(self.retirement_accounts).union(self.debt_accounts)
+            self.account_transactions = self.transaction_strategy(
+                available, accounts=accounts)
+        else:
+            self.account_transactions = {}
 
         # NOTE: We let the transactions_strategy determine
         # timing. It will use each account's default timing. Consider
-- 
2.43.0


From cd063dbbe4b684c2b6cac28fd12dcd0a0a5a97f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 26/79] fix: withdraw from taxable accounts by default

SavingsAccount no longer exists; TaxableAccount took its place, so default
Canadian withdrawals never drew on taxable accounts.
---
 forecaster/canada/settings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/settings.py b/forecaster/canada/settings.py
index aa4d6b8..40f39e7 100644
--- a/forecaster/canada/settings.py
+++ b/forecaster/canada/settings.py
@@ -20,7 +20,7 @@ class SettingsCanada(Settings):
             `{'RRSP': 2, 'TFSA': 1, 'TaxableAccount': 3}`.
         withdrawal_weights (dict[str, float]): Defaults for this attribute
             are overridden to
-            `{'RRSP': 1, 'TFSA': 2, 'SavingsAccount': 3}`.
+            `{'RRSP': 1, 'TFSA': 2, 'TaxableAccount': 3}`.
         tax_province (str): A default value for building `TaxCanada`
             objects. Defaults to "BC".
         resp_child_other_income (float): A default value for building
@@ -51,7 +51,7 @@ class SettingsCanada(Settings):
     withdrawal_weights = Attr({
         'RRSP': 1,
         'TFSA': 2,
-        'SavingsAccount': 3})
+        'TaxableAccount': 3})
 
     # TaxCanada defaults
     tax_province = Attr("BC")
-- 
2.43.0


From 81b97adb5400ddfb807649f373696a9fb3ed541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 27/79] fix: exempt minimum RRIF withdrawals from withholding
 tax

---
 forecaster/canada/accounts/rrsp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/forecaster/canada/accounts/rrsp.py b/forecaster/canada/accounts/rrsp.py
index b1353a9..806406c 100644
--- a/forecaster/canada/accounts/rrsp.py
+++ b/forecaster/canada/accounts/rrsp.py
@@ -146,7 +146,10 @@ class RRSP(RegisteredAccount):
         else:
             # Only withdrawals in excess of the minimum RRIF withdrawal
             # are hit by the withholding tax.
-            taxable_income = self.taxable_income - self.min_outflow_limit
+            # (Recall that outflow limits are negative.)
+            taxable_income = max(
+                self.taxable_income + self.min_outflow_limit,
+                self.precision_convert(0)) # Money value
 
         year = nearest_year(
             self.constants.RRSP_WITHHOLDING_TAX_RATE,
-- 
2.43.0


From 153799d1f7b935c01ea2c86a2adfe5460d126a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 28/79] fix: roll over contribution room net of all linked
 accounts' transactions

---
 forecaster/canada/accounts/rrsp.py | 6 ++++--
 forecaster/canada/accounts/tfsa.py | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/forecaster/canada/accounts/rrsp.py b/forecaster/canada/accounts/rrsp.py
index 806406c..37ac811 100644
--- a/forecaster/canada/accounts/rrsp.py
+++ b/forecaster/canada/accounts/rrsp.py
@@ -216,8 +216,10 @@ class RRSP(RegisteredAccount):
                 accrual_max,
                 self.inflation_adjust,
                 year + 1)
-            # Don't forget to add in any rollovers:
-            rollover = self.contribution_room - self.inflows()
+            # Don't forget to add in any rollovers (room is shared by
+            # all linked accounts, so consider all of their inflows):
+            rollover = self.contribution_room - sum(
+                account.inflows() for account in self.max_inflow_link.group)
             return min(
                 accrual,
                 max_accrual # Money value
diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index 4fb2cbb..21dcd5a 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -124,8 +124,11 @@ class TFSA(RegisteredAccount):
         """ The amount of contribution room for next year. """
         contribution_room = self._contribution_room_accrual(self.this_year + 1)
         # On top of this year's accrual, roll over unused contribution
-        # room, plus any withdrawals (less contributions) from last year
-        rollover = self.contribution_room - (self.outflows() + self.inflows())
+        # room, plus any withdrawals (less contributions) from last year.
+        # Room is shared by all linked accounts, so consider them all:
+        rollover = self.contribution_room - sum(
+            account.outflows() + account.inflows()
+            for account in self.max_inflow_link.group)
         return contribution_room + rollover
 
     @recorded_property
-- 
2.43.0


From f7cbae2ec2bf9927cce804a5423254ee023a9088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 29/79] fix: limit inflows to contribution room provided via
 inputs

---
 forecaster/canada/accounts/registered_account.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/accounts/registered_account.py b/forecaster/canada/accounts/registered_account.py
index 99e6618..589ba6d 100644
--- a/forecaster/canada/accounts/registered_account.py
+++ b/forecaster/canada/accounts/registered_account.py
@@ -158,9 +158,10 @@ class RegisteredAccount(LinkedLimitAccount):
             self.contributor.next_year()
 
         # Now assign the contribution room we determined earlier to
-        # the linked data store:
+        # the linked data store. (Setting `contribution_room` has no
+        # effect if it was input, so set the limit that it wraps.)
         if first_account:
-            self.contribution_room = contribution_room
+            self.max_inflow_limit = contribution_room
 
     def next_contribution_room(self):
         """ Returns the contribution room for next year.
-- 
2.43.0


From d22a49fa5809d1dc95ab61d005a562d66abcb071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 30/79] fix: keep linked accounts' transactions out of an
 account's own balance

Merging linked accounts' transactions into the account's own caused their
inflows and outflows to offset each other and to change the account's
projected balance.
---
 forecaster/accounts/linked_limit.py | 165 ++++++++++++++++------------
 1 file changed, 96 insertions(+), 69 deletions(-)

diff --git a/forecaster/accounts/linked_limit.py b/forecaster/accounts/linked_limit.py
index e5b9b0a..9248683 100644
--- a/forecaster/accounts/linked_limit.py
+++ b/forecaster/accounts/linked_limit.py
@@ -1,9 +1,7 @@
 """ A module providing the LinkedLimitAccount class. """
 
-from copy import copy
 from forecaster.accounts.base import Account
 from forecaster.accounts.link import AccountLink
-from forecaster.utility import add_transactions
 
 class LinkedLimitAccount(Account):
     """ An account with inflow/outflow limits linked to other accounts.
@@ -195,16 +193,8 @@ class LinkedLimitAccount(Account):
             link.data = limit
         return link
 
-    def _merge_transactions(self, transactions, group_transactions, link):
-        """ Merges `group_transactions` and `transactions`.
-
-        Only linked accounts have their transactions in
-        `group_transactions` added to `transactions`. Any keys in
-        `group_transactions` which are not linked (per `link`) are
-        ignored.
-
-        If `transactions` is provided, any transactions for this account
-        in `group_transactions` are ignored.
+    def _own_transactions(self, transactions, group_transactions):
+        """ The hypothetical transactions for this account, if any.
 
         Args:
             transactions (Union[dict[Number, Money], NoneType]): A
@@ -213,52 +203,74 @@ class LinkedLimitAccount(Account):
             group_transactions
                 (Union[dict[Account, dict[Number, Money]], NoneType]):
                 A mapping of `Account` keys to `transactions`-like
-                values. Keys not linked (according to `link`) are
-                ignored.
+                values. If `transactions` is provided, any transactions
+                for this account in `group_transactions` are ignored.
+
+        Returns:
+            Union[dict[Number, Money], NoneType]: A time-series of
+            transactions for this account, or `None` if neither input
+            provides one.
+        """
+        if transactions is None and group_transactions is not None:
+            return group_transactions.get(self)
+        return transactions
+
+    def _linked_flows(self, link, group_transactions, method):
+        """ The total flows of all other accounts linked via `link`.
+
+        Args:
             link (AccountLink): An object defining a collection of
                 linked accounts.
+            group_transactions
+                (Union[dict[Account, dict[Number, Money]], NoneType]):
+                A mapping of `Account` keys to time-series of
+                transactions, considered in addition to the accounts'
+                recorded transactions. Keys not linked (according to
+                `link`) are ignored.
+            method (str): The name of the account method to use to
+                determine flows (i.e. `"inflows"` or `"outflows"`).
 
         Returns:
-            dict[Number, Money]: A time-series of transactions formed
-            by merging `transactions` (if provided) with the
-            transactions mapped by any accounts of `group_transactions`
-            (if provided) which are linked to this account.
+            Money: The total flows.
         """
-        # For convenience, use an empty iterable rather than `None`:
         if group_transactions is None:
-            group_transactions = set()
-
-        # We want to return `transactions`, but we don't want to mutate
-        # any of the inputs, so copy it first:
-        if transactions is not None:
-            transactions = copy(transactions)
-        elif self in group_transactions:
-            # If `transactions` isn't given, but this account is
-            # represented in `group_transactions`, use that:
-            transactions = copy(group_transactions[self])
-        else:
-            # Otherwise, just start with a empty dict to fill later:
-            transactions = {}
-
-        # If this account isn't linked (for this type of inflow/outflow,
-        # anyways), we're done:
-        if link is None:
-            return transactions
-
-        # Otherwise, merge the transactions for each other linked
-        # account in the group (note that this account is handled above)
-        group = link.group - {self}
-        for account in group:
-            # Add the transactions already recorded against the account:
-            add_transactions(transactions, account.transactions)
-            # And add any additional transactions, if present in
-            # `group_transactions`:
-            if account in group_transactions:
-                add_transactions(transactions, group_transactions[account])
-        return transactions
+            group_transactions = {}
+        return sum(
+            (
+                getattr(account, method)(group_transactions.get(account))
+                for account in link.group - {self}),
+            self.precision_convert(0)) # Money value
+
+    def _linked_inflow_limit(
+            self, link, limit, transactions, group_transactions,
+            transaction_limit):
+        """ Reduces `transaction_limit` to respect a shared inflow limit. """
+        if link is None or limit is None:
+            return transaction_limit
+        room = (
+            limit - self.inflows(transactions)
+            - self._linked_flows(link, group_transactions, 'inflows'))
+        if transaction_limit is None:
+            return room
+        return min(room, transaction_limit)
+
+    def _linked_outflow_limit(
+            self, link, limit, transactions, group_transactions,
+            transaction_limit):
+        """ Reduces `transaction_limit` to respect a shared outflow limit. """
+        if link is None or limit is None:
+            return transaction_limit
+        room = (
+            limit - self.outflows(transactions)
+            - self._linked_flows(link, group_transactions, 'outflows'))
+        if transaction_limit is None:
+            return room
+        # (Recall that outflows are negative, so we use max, not min)
+        return max(room, transaction_limit)
 
     def max_inflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, *args,
+            transactions=None, group_transactions=None, **kwargs):
         """ The maximum amounts that can be contributed to the account.
 
         This overloaded method simply provides a new argument
@@ -282,14 +294,18 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.max_inflow_link)
+        transactions = self._own_transactions(transactions, group_transactions)
+        # Limit transactions based on other linked accounts' inflows:
+        transaction_limit = self._linked_inflow_limit(
+            self.max_inflow_link, self.max_inflow_limit,
+            transactions, group_transactions, transaction_limit)
         return super().max_inflows(
-            *args, transactions=transactions, **kwargs)
+            timing, transaction_limit, *args,
+            transactions=transactions, **kwargs)
 
     def max_outflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, *args,
+            transactions=None, group_transactions=None, **kwargs):
         """ The maximum amounts that can be withdrawn from the account.
 
         This overloaded method simply provides a new argument
@@ -313,14 +329,18 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.max_outflow_link)
+        transactions = self._own_transactions(transactions, group_transactions)
+        # Limit transactions based on other linked accounts' outflows:
+        transaction_limit = self._linked_outflow_limit(
+            self.max_outflow_link, self.max_outflow_limit,
+            transactions, group_transactions, transaction_limit)
         return super().max_outflows(
-            *args, transactions=transactions, **kwargs)
+            timing, transaction_limit, *args,
+            transactions=transactions, **kwargs)
 
     def min_inflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, *args,
+            transactions=None, group_transactions=None, **kwargs):
         """ The minimum amounts that must be contributed to the account.
 
         This overloaded method simply provides a new argument
@@ -344,14 +364,18 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.min_inflow_link)
+        transactions = self._own_transactions(transactions, group_transactions)
+        # Limit transactions based on other linked accounts' inflows:
+        transaction_limit = self._linked_inflow_limit(
+            self.min_inflow_link, self.min_inflow_limit,
+            transactions, group_transactions, transaction_limit)
         return super().min_inflows(
-            *args, transactions=transactions, **kwargs)
+            timing, transaction_limit, *args,
+            transactions=transactions, **kwargs)
 
     def min_outflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, *args,
+            transactions=None, group_transactions=None, **kwargs):
         """ The minimum amounts that must be withdrawn from the account.
 
         This overloaded method simply provides a new argument
@@ -375,8 +399,11 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.min_outflow_link)
+        transactions = self._own_transactions(transactions, group_transactions)
+        # Limit transactions based on other linked accounts' outflows:
+        transaction_limit = self._linked_outflow_limit(
+            self.min_outflow_link, self.min_outflow_limit,
+            transactions, group_transactions, transaction_limit)
         return super().min_outflows(
-            *args, transactions=transactions, **kwargs)
+            timing, transaction_limit, *args,
+            transactions=transactions, **kwargs)
-- 
2.43.0


From 95d2c2c419a2e8f1b2c265638fc3b5cf8d898f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 31/79] fix: assign minimum transactions only if requested

---
 forecaster/strategy/transaction/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 46ae4e2..2290ba0 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -261,9 +261,12 @@ class TransactionTraversal(HighPrecisionOptional):
         self.outbound_nodes = {}
         self.overflow_nodes = {}
         # Build and traverse a graph based on `priority`
-        # First traverse to assign min. flows:
-        min_transactions = self._traverse_priority(
-            min_total, available, min_limit)
+        # First traverse to assign min. flows (if desired):
+        if assign_min:
+            min_transactions = self._traverse_priority(
+                min_total, available, min_limit)
+        else:
+            min_transactions = {}
         # Then traverse to assign max. flows. Pass in `memo` to ensure
         # that the flows assigned previously are respected
         max_transactions = self._traverse_priority(
-- 
2.43.0


From 1f48d934ee0729a334d90092cde2d89d7ce8f04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 32/79] fix: pass assign_min under the name
 TransactionTraversal uses

---
 forecaster/strategy/debt_payment/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/strategy/debt_payment/base.py b/forecaster/strategy/debt_payment/base.py
index 261c3b4..d784e0e 100644
--- a/forecaster/strategy/debt_payment/base.py
+++ b/forecaster/strategy/debt_payment/base.py
@@ -60,7 +60,7 @@ class DebtPaymentStrategy(Strategy, HighPrecisionOptional):
         """
         strategy = TransactionTraversal(
             priority=sorted_debts, high_precision=self.high_precision)
-        result = strategy(available, assign_min_first=assign_minimums)
+        result = strategy(available, assign_min=assign_minimums)
         return result
 
     @strategy_method(SNOWBALL_KEY)
-- 
2.43.0


From 46012589e76d6a637b1bc77594eaf9f9bf0fe837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 33/79] fix: use custom transaction and group methods

---
 forecaster/strategy/transaction/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 2290ba0..a0cba52 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -186,11 +186,11 @@ class TransactionTraversal(HighPrecisionOptional):
         if transaction_methods is None:
             self.transaction_methods = transaction_default_methods()
         else:
-            self.transaction_methods = LimitTuple(transaction_methods)
+            self.transaction_methods = LimitTuple(*transaction_methods)
         if group_methods is None:
             self.group_methods = group_default_methods()
         else:
-            self.group_methods = LimitTuple(group_methods)
+            self.group_methods = LimitTuple(*group_methods)
         # Convert `precision` to high-precision if it's the default
         # argument and a conversion method has been passed:
         if precision == EPSILON and self.high_precision is not None:
-- 
2.43.0


From fdfde5773365d8ee008a74e6239e084915b924ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 34/79] fix: copy the children of transaction nodes

---
 forecaster/strategy/transaction/node.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forecaster/strategy/transaction/node.py b/forecaster/strategy/transaction/node.py
index a190bf9..0a95fa6 100644
--- a/forecaster/strategy/transaction/node.py
+++ b/forecaster/strategy/transaction/node.py
@@ -54,6 +54,7 @@ class TransactionNode:
             # Copy initialization:
             self.source = source.source
             self.limits = source.limits
+            self.children = source.children
             return
 
         # Hold on to the original list/dict/whatever.
-- 
2.43.0


From 14941ee37f9ae4377b63bcd91d87bc2e5c43b256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 35/79] fix: share all remaining flow among underallocated
 weighted children

---
 forecaster/strategy/transaction/base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index a0cba52..fa59539 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -783,11 +783,9 @@ class TransactionTraversal(HighPrecisionOptional):
             recurse_children = {
                 child: weight for child, weight in children.items()
                 if totals[child] > 0}
-            # Capacity should be restored to its original value...
+            # Capacity should be restored to its original value, all of
+            # which remains to be allocated among those children.
             capacity -= flows
-            # ... and further reduced by the amount of excess flows
-            # previously allocated to some children:
-            capacity += sum(total for total in totals.values() if total < 0)
             self._add_weighted_children(
                 node, recurse_children, capacity, **kwargs)
             # As for the children that have been over-allocated flow,
-- 
2.43.0


From 199795364363401ea86502035b4b7b048e443ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 36/79] fix: assign minimum outflows before other withdrawals

Minimum outflows got no capacity (an unlimited total was treated as zero by
nodes which distribute their inbound capacity) and, once memoized, increased
the capacity of accounts for further outflows.
---
 forecaster/strategy/transaction/base.py  | 13 ++++++++++---
 forecaster/strategy/transaction/graph.py |  3 +++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index fa59539..332349e 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -249,7 +249,11 @@ class TransactionTraversal(HighPrecisionOptional):
             max_limit = LIMIT_TUPLE_FIELDS.max_outflow
             # Limit min. outflows based on what's in the account, not
             # the shortfall we're trying to fill:
-            min_total = float('-inf')
+            min_total = sum(
+                sum(_get_transactions(
+                    account, min_limit, available,
+                    transaction_methods=self.transaction_methods).values())
+                for account in _get_accounts(self._priority_tree))
         else:  # No transactions since total ~= 0
             return {}
 
@@ -608,7 +612,9 @@ class TransactionTraversal(HighPrecisionOptional):
             if limit_value is not None:
                 # Scale up the limit value by `precision` to avoid
                 # rounding issues:
-                limit_value /= self.precision
+                # (Use its magnitude; outflows are negative, but flows
+                # aren't.)
+                limit_value = abs(limit_value / self.precision)
                 # Reduce `limit_value` based on any memoized flows
                 # through `node`:
                 limit_value -= _flows_through(node, flows=self.memo)
@@ -1161,7 +1167,8 @@ class TransactionTraversal(HighPrecisionOptional):
             transaction_limit = self.high_precision(transaction_limit)
         # Scale up based on the precision (as we do with all edge
         # capacities):
-        capacity = transaction_limit / self.precision
+        # (Use its magnitude; outflows are negative, but flows aren't.)
+        capacity = abs(transaction_limit / self.precision)
 
         # Most accounts add an edge straight to `sink`, but accounts
         # that have shared transaction limits have special treatment:
diff --git a/forecaster/strategy/transaction/graph.py b/forecaster/strategy/transaction/graph.py
index 988c9e2..141e857 100644
--- a/forecaster/strategy/transaction/graph.py
+++ b/forecaster/strategy/transaction/graph.py
@@ -150,6 +150,9 @@ def _add_edge(
         # Reduce capacity by any previously-allocated flows over this
         # edge:
         capacity -= _flows_through(from_node, to_node, flows=memo)
+        # Previous flows can exceed `capacity` (e.g. if an account's min.
+        # outflows exceed the shortfall), which leaves none to allocate:
+        capacity = max(capacity, 0)
         # Only assign `capacity` as an edge value if it is finite.
         # (networkx doesn't deal well with float('inf'). The
         # "capacity" attr should be absent if capacity is unbounded.)
-- 
2.43.0


From e5129509373be669fb430bad0011cf5142a4402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 37/79] fix: allocate shared limits consistently between linked
 accounts

---
 forecaster/strategy/transaction/base.py | 30 +++++++++++++++++++------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 332349e..5b40aa1 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -25,6 +25,7 @@ from forecaster.strategy.transaction.util import (
     _convert_flows_to_transactions)
 from forecaster.strategy.transaction.node import TransactionNode
 from forecaster.strategy.transaction.graph import (
+    CAPACITY_KEY,
     _get_empty_graph, _add_edge, _flows_through, _generate_flows,
     _inbound_capacity, _merge_flows, _outbound_capacity, _sum_weight,
     _get_outbound_node, _get_overflow_node, _classify_children_by_flows,
@@ -1175,20 +1176,35 @@ class TransactionTraversal(HighPrecisionOptional):
         group = _get_group(node, limit, group_methods=self.group_methods)
         if group is not None:
             group_node = frozenset(group)  # make hashable
-            # Reduce capacity based on any memoized flows through
-            # `group_node` (which accounts for all flows through all
-            # of the linked nodes of the group)
-            # This prevents inadvertent over-contribution/withdrawal:
-            capacity -= _flows_through(group_node, flows=self.memo)
+            # Reduce capacity based on any memoized flows through `node`
+            node_capacity = max(
+                capacity - _flows_through(node, flows=self.memo), 0)
             _add_edge(
                 self.graph, node, group_node,
-                capacity=capacity, limit=capacity)
+                capacity=node_capacity, limit=node_capacity)
+            # Reduce the group's capacity based on any memoized flows
+            # through all of the linked nodes of the group.
+            # This prevents inadvertent over-contribution/withdrawal:
+            capacity = max(
+                capacity - sum(
+                    _flows_through(account, flows=self.memo)
+                    for account in group),
+                0)
+            # Some accounts of the group might not be able to use all of
+            # the group's capacity (e.g. due to their balances); don't
+            # let them reduce the capacity available to the others:
+            if self.graph.has_edge(group_node, self.sink):
+                capacity = max(
+                    capacity,
+                    self.graph[group_node][self.sink].get(
+                        CAPACITY_KEY, float('inf')))
             # We're done with the original account node; all further
             # edges will be from the group node.
             node = group_node
         else:
             # Reduce capacity based on any memoized flows through `node`
-            capacity -= _flows_through(node, flows=self.memo)
+            capacity = max(
+                capacity - _flows_through(node, flows=self.memo), 0)
 
         # Send an edge from the node to the sink, if provided:
         if self.sink is not None:
-- 
2.43.0


From 9705f1a0b408dc218a070239c03fb02f833da6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 38/79] fix: accept a single amount available for debt payments

---
 forecaster/strategy/debt_payment/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/forecaster/strategy/debt_payment/base.py b/forecaster/strategy/debt_payment/base.py
index d784e0e..b026815 100644
--- a/forecaster/strategy/debt_payment/base.py
+++ b/forecaster/strategy/debt_payment/base.py
@@ -60,7 +60,12 @@ class DebtPaymentStrategy(Strategy, HighPrecisionOptional):
         """
         strategy = TransactionTraversal(
             priority=sorted_debts, high_precision=self.high_precision)
-        result = strategy(available, assign_min=assign_minimums)
+        # If we've been given a single amount, use each account's default
+        # timing (by not providing any timings):
+        total = None
+        if not hasattr(available, 'values'):
+            available, total = {}, available
+        result = strategy(available, total=total, assign_min=assign_minimums)
         return result
 
     @strategy_method(SNOWBALL_KEY)
-- 
2.43.0


From 7b32bacc8622a5cd11e08718e2f940ab828cb608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 39/79] fix: keep debts in order when some have been repaid

---
 forecaster/strategy/transaction/strategy.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/forecaster/strategy/transaction/strategy.py b/forecaster/strategy/transaction/strategy.py
index db0b13b..4eb0857 100644
--- a/forecaster/strategy/transaction/strategy.py
+++ b/forecaster/strategy/transaction/strategy.py
@@ -312,10 +312,19 @@ class TransactionStrategy(Strategy):
         low_interest_priority = self.debt_priority(low_interest_debts)
         high_interest_priority = self.debt_priority(high_interest_debts)
 
+        # Debts which have been repaid have no need of transactions.
+        # (Leaving them out ensures that the debts' priority tree is
+        # recognized as a subtree, below.)
+        repaid_debts = {
+            account for account in accounts
+            if isinstance(account, Debt)
+            and account not in low_interest_debts
+            and account not in high_interest_debts}
+
         # Group together accounts that share weights (and map them to
         # those weights for convenience):
         groups = self._weight_account_groups(
-            set(accounts) - high_interest_debts)
+            set(accounts) - high_interest_debts - repaid_debts)
 
         # Ensure that low-interest debts are properly ordered, rather
         # than assigned some default order based on their common typing:
-- 
2.43.0


From aee02b00bbad11198e58af61544bd08cd6756bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 40/79] fix: assign no transactions if there are no accounts

---
 forecaster/strategy/transaction/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 5b40aa1..77f02e4 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -239,6 +239,10 @@ class TransactionTraversal(HighPrecisionOptional):
         # NOTE: If Money values aren't useable as scalars (e.g. as with
         # PyMoney), need to convert it here.
 
+        # There's nothing to traverse if there are no accounts:
+        if not _get_accounts(self._priority_tree):
+            return {}
+
         # Determine which limits we need to respect during traversal.
         if total > self.precision:  # inflows
             min_limit = LIMIT_TUPLE_FIELDS.min_inflow
-- 
2.43.0


From cb85896578fe1a18b12944c4aa3bd146deab383a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 41/79] fix: update capital gains when transactions are removed

---
 forecaster/canada/accounts/taxable_account.py | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/forecaster/canada/accounts/taxable_account.py b/forecaster/canada/accounts/taxable_account.py
index 9bd3d78..f41dc5f 100644
--- a/forecaster/canada/accounts/taxable_account.py
+++ b/forecaster/canada/accounts/taxable_account.py
@@ -109,16 +109,28 @@ class TaxableAccount(Account):
         self._acb_history[self.this_year + 1] = acb
         return capital_gain
 
-    def add_transaction(self, value, when='end'):
-        super().add_transaction(value, when)
-        # Invalidate the cache for acb and capital gains, since
-        # transactions will affect it.
+    def _clear_capital_gain(self):
+        """ Invalidates the cache for next year's acb and capital gains. """
         # pylint: disable=no-member
         # Pylint gets confused by attributes added via metaclass.
         # All `_*_history` members are dicts added automatically:
         self._capital_gain_history.pop(self.this_year, None)
         self._acb_history.pop(self.this_year + 1, None)
 
+    def add_transaction(self, value, when='end'):
+        super().add_transaction(value, when)
+        # Invalidate the cache for acb and capital gains, since
+        # transactions will affect it.
+        self._clear_capital_gain()
+
+    def __delitem__(self, key):
+        super().__delitem__(key)
+        self._clear_capital_gain()
+
+    def clear(self):
+        super().clear()
+        self._clear_capital_gain()
+
     @recorded_property
     def taxable_income(self):
         """ The total tax owing based on activity in the account.
-- 
2.43.0


From d795f888597f8d0ec21c53e09729654078d95167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 42/79] fix: respect inputs for the acb and capital gains of
 taxable accounts

---
 forecaster/canada/accounts/taxable_account.py | 31 ++++++++++++++++---
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/forecaster/canada/accounts/taxable_account.py b/forecaster/canada/accounts/taxable_account.py
index f41dc5f..8a68c02 100644
--- a/forecaster/canada/accounts/taxable_account.py
+++ b/forecaster/canada/accounts/taxable_account.py
@@ -80,6 +80,10 @@ class TaxableAccount(Account):
         activity. Therefore, changing any transactions will affect
         capital_gain.
         """
+        return self._realize_capital_gain()
+
+    def _realize_capital_gain(self):
+        """ Determines this year's capital gain and next year's acb. """
         acb = self.acb
         capital_gain = self.precision_convert(0)
         transactions = self.transactions
@@ -105,17 +109,36 @@ class TaxableAccount(Account):
                     self.precision_convert(1) - (acb / balance))
                 acb *= self.precision_convert(1) - (-value / balance)
 
-        # We've generated the ACB for the next year, so store it now.
-        self._acb_history[self.this_year + 1] = acb
+        # We've generated the ACB for the next year, so store it now
+        # (unless it was input).
+        if not self._is_input('acb', self.this_year + 1):
+            self._acb_history[self.this_year + 1] = acb
         return capital_gain
 
+    def _is_input(self, name, year):
+        """ Whether the value of a property for `year` was input. """
+        return name in self.inputs and year in self.inputs[name]
+
+    def next_year(self):
+        """ Adds another year to the account. """
+        # If this year's capital gain was input then next year's acb
+        # hasn't been determined yet.
+        # pylint: disable=no-member
+        # Pylint gets confused by attributes added via metaclass.
+        if self.this_year + 1 not in self._acb_history:
+            self._realize_capital_gain()
+        super().next_year()
+
     def _clear_capital_gain(self):
         """ Invalidates the cache for next year's acb and capital gains. """
         # pylint: disable=no-member
         # Pylint gets confused by attributes added via metaclass.
         # All `_*_history` members are dicts added automatically:
-        self._capital_gain_history.pop(self.this_year, None)
-        self._acb_history.pop(self.this_year + 1, None)
+        # (Inputs take precedence over any calculated values.)
+        if not self._is_input('capital_gain', self.this_year):
+            self._capital_gain_history.pop(self.this_year, None)
+        if not self._is_input('acb', self.this_year + 1):
+            self._acb_history.pop(self.this_year + 1, None)
 
     def add_transaction(self, value, when='end'):
         super().add_transaction(value, when)
-- 
2.43.0


From 91fdad9e463384bdc918d6ebe2a5927d0de8eecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 43/79] fix: read str-encoded numbers without loss of precision

---
 forecaster/value_reader.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 1096c03..5669d7e 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -337,16 +337,19 @@ class ValueReader(HighPrecisionOptional):
 
         # Now we know `vals` is a numeric-convertible str. Convert it:
         # Prefer int representation if possible:
-        if float_val % 1 == 0:
-            # `float_val % 1` is `NaN` for infinite or NaN values,
-            # and is a non-zero number for any floating-point value.
-            # Thus, if this test passes, we have an integer value.
-            return int(float_val)
-        # Use high-precision numeric type if supported:
-        if self.high_precision is not None:
-            return self.high_precision(vals)
-        # Otherwise, use float:
-        return float_val
+        try:
+            return int(vals) #@IgnoreException
+        except ValueError:
+            pass
+        # Otherwise use high-precision numeric type if supported, or
+        # float if not:
+        val = self._parse_float(vals)
+        # Use int representation if this can be done losslessly:
+        # (`float_val % 1` is `NaN` for infinite or NaN values, and
+        # `float_val` might not represent `vals` precisely.)
+        if float_val % 1 == 0 and val == int(val):
+            return int(val)
+        return val
 
     def write(self, filename, vals=None):
         """ Writes values to a UTF-8 encoded JSON file.
-- 
2.43.0


From 900796443cb60ab87ea5c7fc0a35bcaa6e734288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 44/79] fix: write the values of ValueReader objects

---
 forecaster/value_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 5669d7e..9a4a7cd 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -363,6 +363,9 @@ class ValueReader(HighPrecisionOptional):
         # If no values are provided, use this object's `values`:
         if vals is None:
             vals = self.values
+        # If a ValueReader is provided, use its `values`:
+        elif isinstance(vals, ValueReader):
+            vals = vals.values
 
         filename = resolve_path(filename)
 
-- 
2.43.0


From 39c4a900b0e59f6f1fdb155f21042791f68c1940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 45/79] fix: avoid mutating deductions and credits passed to
 TaxCanada

---
 forecaster/canada/tax.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index ad4931c..2577e16 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -225,11 +225,12 @@ class TaxCanada(TaxMulti, HighPrecisionOptional):
         # by the superclass), or they can pass in `federal_*` and/or
         # `provincial_*` scalars which we'll wrap up appropriately.
         if "deductions" in kwargs:
-            deductions = kwargs["deductions"]
+            # Copy to avoid mutating the caller's dict
+            deductions = dict(kwargs["deductions"])
         else:
             deductions = {}
         if "credits_" in kwargs:
-            credits_ = kwargs["credits_"]
+            credits_ = dict(kwargs["credits_"])
         else:
             credits_ = {}
 
-- 
2.43.0


From 4d7c8e33cfb3844bfc14f3cfd4434160e8f6e970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 46/79] fix: grow each year's balance at that year's rate

---
 forecaster/accounts/base.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 685c598..3d4fe3c 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -227,12 +227,14 @@ class Account(TaxSource):
         # This method isn't hidden in __init__; it's assigned to (by a
         # setter defined via metaclass)
 
-        # First, grow last year's initial balance based on the rate:
+        # First, grow last year's initial balance based on that year's
+        # rate:
+        # pylint: disable=no-member
+        # Pylint gets confused by attributes added by metaclass.
+        rate = self._rate_history[self.this_year - 1]
         balance = value_at_time(
-            # pylint: disable=no-member
-            # Pylint gets confused by attributes added by metaclass.
             self._balance_history[self.this_year - 1],
-            self.rate, 'start', 'end', nper=self.nper,
+            rate, 'start', 'end', nper=self.nper,
             high_precision=self.high_precision)
 
         # Then, grow each transactions and add it to the year-end total.
@@ -243,7 +245,7 @@ class Account(TaxSource):
         transactions_history = self._transactions_history
         for when, value in transactions_history[self.this_year - 1].items():
             balance += value_at_time(
-                value, self.rate, when, 'end', nper=self.nper,
+                value, rate, when, 'end', nper=self.nper,
                 high_precision=self.high_precision)
 
         return balance
-- 
2.43.0


From e08624700a7cb08c3b992ffec3c1f4b15b4eaaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 47/79] fix: inflate, rather than deflate, with
 inflation_adjustments

---
 forecaster/scenario.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/scenario.py b/forecaster/scenario.py
index 1b77f8c..5549955 100644
--- a/forecaster/scenario.py
+++ b/forecaster/scenario.py
@@ -202,7 +202,7 @@ class Scenario(object):
             (or, for years prior to `base_year`, it is the present value
             of $1 in base_year)
         """
-        return {year: self.accumulation_function(year, base_year)
+        return {year: self.accumulation_function(base_year, year)
                 for year in self}
 
     @property
-- 
2.43.0


From 26257f6411f9eb3b9a85ed156e4e1618362a37a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 48/79] fix: determine Canadian credits based on the tax year,
 not the current year

---
 forecaster/canada/tax.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index 2577e16..c773ccc 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -74,9 +74,11 @@ class TaxCanadaJurisdiction(Tax):
         Returns:
             Money: The amount of the credit claimable by person in year.
         """
-        pension_income = abs(sum(
-            account.outflows() for account in person.accounts
-            if isinstance(account, RRSP)))
+        pension_income = sum(
+            -value for account in person.accounts
+            if isinstance(account, RRSP)
+            for value in account.transactions_history[year].values()
+            if value < 0)
             # NOTE: Other qualified pension income sources can be
             # added here
         # Each jurisdiction has a maximum claimable amount for the
@@ -124,14 +126,14 @@ class TaxCanadaJurisdiction(Tax):
         # This would help to avoid calling self.deductions many times.
         spouse = person.spouse
         spouse_net_income = (
-            spouse.taxable_income - self.deduction(spouse, year))
+            spouse.taxable_income_history[year] - self.deduction(spouse, year))
 
         # Figure out whether to assign the credit to this person or
         # their spouse based on who has more income:
 
         # If this is the lower-earner, use their spouse instead:
         person_net_income = (
-            person.taxable_income - self.deduction(person, year))
+            person.taxable_income_history[year] - self.deduction(person, year))
         if person_net_income < spouse_net_income:
             return 0 # Money value
         # If their incomes are the same, use memory location to
-- 
2.43.0


From 80d14438d410418e5a0e0b6277495156a31f6fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 49/79] fix: limit the spousal credit to the spousal amount

---
 forecaster/canada/tax.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index c773ccc..e819ff1 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -143,10 +143,10 @@ class TaxCanadaJurisdiction(Tax):
                 return 0 # Money value
 
         # The credit is determined by reducing the spousal amount
-        # by the spouse's (net) income, but in any event it's not
-        # negative.
+        # by the spouse's (net) income, if any, but in any event it's
+        # not negative.
         credit = max(
-            max_spousal_amount - spouse_net_income,
+            max_spousal_amount - max(spouse_net_income, 0),
             0) # Money value
 
         return credit
-- 
2.43.0


From 66c2269a2a9e6b33cb20fa0b70811a630feb19b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 50/79] fix: ignore accounts opened after the tax year for the
 pension credit

---
 forecaster/canada/tax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index e819ff1..ed331cb 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -77,7 +77,7 @@ class TaxCanadaJurisdiction(Tax):
         pension_income = sum(
             -value for account in person.accounts
             if isinstance(account, RRSP)
-            for value in account.transactions_history[year].values()
+            for value in account.transactions_history.get(year, {}).values()
             if value < 0)
             # NOTE: Other qualified pension income sources can be
             # added here
-- 
2.43.0


From b49eb69ba608c63653c4b41ee8a6b843578f9edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 51/79] fix: accrue TFSA room from the year the owner turns 18,
 not 17

---
 forecaster/canada/accounts/tfsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index 21dcd5a..f060624 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -103,7 +103,7 @@ class TFSA(RegisteredAccount):
         This excludes any rollovers - it's just the statutory accrual.
         """
         # No accrual if the owner is too young to qualify:
-        if self.owner.age(year + 1) < self.constants.TFSA_ELIGIBILITY_AGE:
+        if self.owner.age(year) < self.constants.TFSA_ELIGIBILITY_AGE:
             return self.precision_convert(0) # Money value
 
         # If we already have an accrual rate set for this year, use that
-- 
2.43.0


From f8d2ff0fda1b8e22b803019c24e110a3d3066fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 52/79] fix: infer initial TFSA room when only later years are
 given

---
 forecaster/canada/accounts/tfsa.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index f060624..50d82b7 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -73,12 +73,14 @@ class TFSA(RegisteredAccount):
         # before this initial_year (e.g. due to `input`), in which
         # case we should extrapolate from that year onwards:
         # (See above note re: `_contribution_room_history`)
-        if self._contribution_room_history:
+        # (Values for later years say nothing about the initial room.)
+        past_years = [
+            year for year in self._contribution_room_history
+            if year < self.initial_year]
+        if past_years:
             # Get the last year for which there is data and the
             # contribution room recorded for that year:
-            last_year = max(
-                year for year in self._contribution_room_history
-                if year < self.initial_year)
+            last_year = max(past_years)
             contribution_room = self._contribution_room_history[last_year]
             # We'll add up accruals starting the year after that:
             start_year = last_year + 1
-- 
2.43.0


From 9e54cc759d443697fc39ac4d1bb9ed5b19725227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 53/79] fix: ignore rounding errors when rebalancing weighted
 children

---
 forecaster/strategy/transaction/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/forecaster/strategy/transaction/graph.py b/forecaster/strategy/transaction/graph.py
index 141e857..bd3332d 100644
--- a/forecaster/strategy/transaction/graph.py
+++ b/forecaster/strategy/transaction/graph.py
@@ -478,6 +478,9 @@ def _swap_saturated(
     """
     # Process input:
     outbound_node = _get_outbound_node(node, outbound_nodes)
+    # Reallocating capacity truncates each child's share, so capacities
+    # can change slightly even if they haven't really been reallocated:
+    tolerance = len(children)
 
     # Re-calculate membership of `saturated`. This is intended to be
     # called after reallocation of capacity between nodes based on
@@ -488,7 +491,7 @@ def _swap_saturated(
         if child in saturated:
             new_capacity = graph[outbound_node][child][CAPACITY_KEY]
             old_capacity = flows[outbound_node][child]
-            if new_capacity != old_capacity:
+            if abs(new_capacity - old_capacity) > tolerance:
                 saturated.remove(child)
                 non_saturated.add(child)
 
-- 
2.43.0


From d0932c4983c4b8cd7a2853ea3c96971ed02840e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 54/79] fix: exhaust each ordered child before moving on to the
 next

---
 forecaster/strategy/transaction/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 77f02e4..0817ce4 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -1070,8 +1070,9 @@ class TransactionTraversal(HighPrecisionOptional):
             self._add_successors(child, **kwargs)
             # Ensure that assigning flows to the next child in sequence
             # has a penalty larger than any path through the current
-            # child's successors:
-            weight = max(weight, _sum_weight(self.graph, child)) + 1
+            # child's successors. (Such a path includes the edge to the current
+            # child, so add to its weight rather than replacing it.)
+            weight += _sum_weight(self.graph, child) + 1
 
     def _add_node_leaf(
             self, node, child, *, capacity=None, **kwargs):
-- 
2.43.0


From d2ee812e154a4a2f510cde09291455a0f3845267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 55/79] fix: assign no further flow once minimum flows exceed a
 node's limit

---
 forecaster/strategy/transaction/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 0817ce4..1867507 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -621,8 +621,10 @@ class TransactionTraversal(HighPrecisionOptional):
                 # aren't.)
                 limit_value = abs(limit_value / self.precision)
                 # Reduce `limit_value` based on any memoized flows
-                # through `node`:
-                limit_value -= _flows_through(node, flows=self.memo)
+                # through `node` (which can exceed it, e.g. if min.
+                # flows were larger than this limit on max. flows):
+                limit_value = max(
+                    limit_value - _flows_through(node, flows=self.memo), 0)
                 # Use the lesser of `capacity` and `limit_value`;
                 # successors use this to determine their edge capacities
                 capacity = min(capacity, limit_value)
-- 
2.43.0


From deecdda5b6a7c75fe1ffbd5c817dee25132eb4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 56/79] fix: keep other children's flows fixed when rebalancing
 weighted children

---
 forecaster/strategy/transaction/base.py  |  6 +-
 forecaster/strategy/transaction/graph.py | 81 +++++++++++-------------
 2 files changed, 40 insertions(+), 47 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 1867507..babfd98 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -1028,12 +1028,12 @@ class TransactionTraversal(HighPrecisionOptional):
             # Ensure that, if any changes in capacity cause additional
             # flow to go through `overflow_node`, that such overflows
             # are directed to `children` (which we know can accept it.)
-            _restrict_overflow(
+            restricted_edges = _restrict_overflow(
                 self.graph, node, children, flows, self.overflow_nodes,
                 outbound_nodes=self.outbound_nodes)
             self._balance_flows(node, children=children, **kwargs)
-            # Undo the foregoing mutation of edges from `overflow_node`:
-            _unrestrict_overflow(self.graph, node, self.overflow_nodes)
+            # Undo the foregoing mutation of edges to other children:
+            _unrestrict_overflow(self.graph, restricted_edges)
 
     def _add_node_ordered(
             self, node, children, *, capacity=None, **kwargs):
diff --git a/forecaster/strategy/transaction/graph.py b/forecaster/strategy/transaction/graph.py
index bd3332d..82f764c 100644
--- a/forecaster/strategy/transaction/graph.py
+++ b/forecaster/strategy/transaction/graph.py
@@ -372,13 +372,16 @@ def _get_overflow_node(node, overflow_nodes, outbound_node=None):
 
 def _restrict_overflow(
         graph, node, children, flows, overflow_nodes, outbound_nodes=None):
-    """ Limits overflows to successors not in `children` at given flows.
+    """ Limits flows to successors not in `children` at given flows.
 
-    If `node` (or its outbound node) has an overflow node, outbound
-    edges from that overflow node to any children not in `children` have
-    their capacity limited to the values for those edges in `flows`.
-    This prevents any children not in `children` from increasing their
-    total flows, but allows flows to shift between nodes in `children`.
+    If `node` (or its outbound node) has an overflow node, any children
+    not in `children` have their flows fixed at the values in `flows`:
+    edges to them from `node` have capacity for all of those flows and
+    edges to them from the overflow node have no capacity. (Simply
+    limiting edges from the overflow node is not enough. Flows over
+    those edges cost as much as overflows to members of `children`, so
+    might be diverted to them.) This allows flows to shift only between
+    nodes in `children`.
 
     `_unrestrict_overflow` is a companion method.
 
@@ -393,60 +396,50 @@ def _restrict_overflow(
             `node: overflow_node` pairs.
         outbound_nodes (dict[Hashable, Hashable]): A mapping of
             `node: outbound_node` pairs. Optional.
+
+    Returns:
+        dict[tuple[Hashable, Hashable], dict[str, Any]]: The edges that
+        were changed (as `(from_node, to_node)` pairs), mapped to their
+        attributes before this method was called.
     """
     # Process input:
     outbound_node = _get_outbound_node(node, outbound_nodes)
     overflow_node = _get_overflow_node(
         node, overflow_nodes, outbound_node=outbound_node)
 
+    restricted_edges = {}
     if overflow_node is None:
         # If there is no overflow node, there's nothing to do.
-        return
+        return restricted_edges
 
-    # Limit the capacity from `overflow_node` to each child of `node`
-    # which is _not_ in `children`. The goal here is to ensure that any
-    # changed in 0-weight capacity result in excess flow being forced
-    # through `children` (via `overflow_node`) and not other nodes.
+    # Fix the flows from `node` to each child of `node` which is _not_
+    # in `children`. The goal here is to ensure that any changes in
+    # 0-weight capacity result in excess flow being forced through
+    # `children` (via `overflow_node`) and not other nodes.
     for child in node.children:
         if child not in children:
-            if overflow_node in flows and child in flows[overflow_node]:
-                capacity = flows[overflow_node][child]
-            else:
-                capacity = 0
-            edge_data = {CAPACITY_KEY: capacity}
-            graph.add_edge(overflow_node, child, **edge_data)
-
-def _unrestrict_overflow(
-        graph, node, overflow_nodes, outbound_nodes=None):
+            capacity = _flows_through(outbound_node, child, flows=flows)
+            capacity += _flows_through(overflow_node, child, flows=flows)
+            for from_node, edge_capacity in (
+                    (outbound_node, capacity), (overflow_node, 0)):
+                edge = graph[from_node][child]
+                restricted_edges[(from_node, child)] = dict(edge)
+                edge[CAPACITY_KEY] = edge_capacity
+    return restricted_edges
+
+def _unrestrict_overflow(graph, restricted_edges):
     """ Undoes the effects of `_restrict_overflow`.
 
-    If `node` (or its outbound node) has an overflow node, outbound
-    edges from that overflow node have their capacity reset so as not
-    to restrict flows over those edges.
-
     Args:
         graph (networkx.DiGraph): A directed graph.
-        node (Hashable): A node in `graph`
-        overflow_nodes (dict[Hashable, Hashable]): A mapping of
-            `node: overflow_node` pairs.
-        outbound_nodes (dict[Hashable, Hashable]): A mapping of
-            `node: outbound_node` pairs. Optional.
+        restricted_edges (dict[tuple[Hashable, Hashable],
+            dict[str, Any]]): The edges changed by `_restrict_overflow`
+            and their original attributes, as returned by that method.
     """
-    # Process input:
-    outbound_node = _get_outbound_node(node, outbound_nodes)
-    overflow_node = _get_overflow_node(
-        node, overflow_nodes, outbound_node=outbound_node)
-
-    if overflow_node is None:
-        # If there is no overflow node, there's nothing to do.
-        return
-
-    # Restore plenty of capacity to each edge from `overflow_node` to
-    # each child:
-    capacity = _outbound_capacity(graph, outbound_node, weight=0)
-    for child in node.children:
-        edge_data = {CAPACITY_KEY: capacity}
-        graph.add_edge(overflow_node, child, **edge_data)
+    for (from_node, to_node), attributes in restricted_edges.items():
+        edge = graph[from_node][to_node]
+        edge.clear()
+        edge.update(attributes)
 
 def _swap_saturated(
         saturated, non_saturated, node, children, graph, flows,
-- 
2.43.0


From 4f32e257996221a5c66a34eb694bad157a479d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 57/79] fix: allow weighted nodes without children

---
 forecaster/strategy/transaction/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index babfd98..381fc9a 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -718,8 +718,10 @@ class TransactionTraversal(HighPrecisionOptional):
             # `overflow_node`.
             # It should be preferable to shift flow between _any_
             # successor path before routing it through `overflow_node`.
-            weight = 1 + max(_sum_weight(
-                self.graph, child) for child in children)
+            # (There might be no children, in which case there's no flow.)
+            weight = 1 + max(
+                (_sum_weight(self.graph, child) for child in children),
+                default=0)
             _add_edge(self.graph, node, overflow_node, weight=weight)
 
         # This deals with overflows, but not underflows - which are
-- 
2.43.0


From a8ce47fd064b878d9ac623776ce803b150bb16e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:06 +0000
Subject: [PATCH 58/79] fix: deleting a ValueReader attribute raised KeyError

---
 forecaster/value_reader.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 9a4a7cd..0274ad2 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -56,10 +56,9 @@ class ValueReaderAttribute(object):
         obj.values[self.name] = value
 
     def __delete__(self, obj):
-        # Remove the value from the `values` dict:
+        # Remove the value from the `values` dict. (This descriptor
+        # belongs to the class, so it stays; its default applies again.)
         del obj.values[self.name]
-        # Also remove this descriptor:
-        del obj.__dict__[self.name]
 
 class HighPrecisionJSONEncoder(json.JSONEncoder):
     """ Extends JSONEncoder to support high-precision numeric types.
-- 
2.43.0


From 3c497185ed76e68941ab3b5a18e4ee328e831df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 59/79] fix: high-precision and mixed keys could not be written
 to file

---
 forecaster/value_reader.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 0274ad2..3bdafd2 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -122,6 +122,39 @@ class HighPrecisionJSONEncoder(json.JSONEncoder):
                 # pylint: enable=function-redefined
             self.high_precision_serialize = high_precision_serialize
 
+    def iterencode(self, o, *args, **kwargs):
+        """ Encodes `o`, including any high-precision keys. """
+        return super().iterencode(self._encode_keys(o), *args, **kwargs)
+
+    def _encode_keys(self, o):
+        """ Str-encodes numeric keys that JSON can't encode or sort.
+
+        `JSONEncoder` doesn't support high-precision keys, nor sorting
+        numeric keys together with `str` keys.
+        """
+        if isinstance(o, (list, tuple)):
+            return [self._encode_keys(val) for val in o]
+        if not isinstance(o, dict):
+            return o
+        o = {key: self._encode_keys(val) for (key, val) in o.items()}
+        convert = (str,)
+        if self.high_precision_type is not None:
+            convert += (self.high_precision_type,)
+        if any(isinstance(key, convert) for key in o):
+            o = {self._encode_key(key): val for (key, val) in o.items()}
+        return o
+
+    def _encode_key(self, key):
+        """ Str-encodes `key` if it is numeric. """
+        if (
+                self.high_precision_type is not None and
+                isinstance(key, self.high_precision_type)):
+            return str(self.high_precision_serialize(key))
+        # (`True` and `False` are instances of `int`.)
+        if isinstance(key, (int, float)) and not isinstance(key, bool):
+            return str(key)
+        return key
+
     def default(self, o):
         """ Attempts to serialize high-precision numeric types. """
         # Serialize high-precision numbers using the custom method:
-- 
2.43.0


From ef0e7095421785706db96f8a199544acab0379be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:16 +0000
Subject: [PATCH 60/79] fix: extending an empty time series raised KeyError
 instead of ValueError

---
 forecaster/utility/inflation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/utility/inflation.py b/forecaster/utility/inflation.py
index fe56139..c3f2b1d 100644
--- a/forecaster/utility/inflation.py
+++ b/forecaster/utility/inflation.py
@@ -91,7 +91,7 @@ def extend_inflation_adjusted(vals, inflation_adjust, target_year):
     # If one of the above searches worked, return an inflation-adjusted
     # value (or dict/list of values, depending on what the values of
     # `vals` are)
-    if base_year != target_year:
+    if base_year is not None:
         val = vals[base_year]
         if isinstance(val, dict):
             return {
-- 
2.43.0


From ef484ae7e2682104e640b9a55b3f8cc4efcb0359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:11 +0000
Subject: [PATCH 61/79] fix: rejecting a spouse left the previous spouse
 half-linked

---
 forecaster/person.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 72f5106..e60be7d 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -282,6 +282,10 @@ class Person(TaxSource):
     @spouse.setter
     def spouse(self, val):
         """ Sets the Person's spouse. """
+        if val is not None and not isinstance(val, Person):
+            # Spouse must be a Person
+            raise TypeError('Person: spouse must be of type Person')
+
         # If this Person already has a spouse, unlink them:
         if hasattr(self, 'spouse') and self.spouse is not None:
             # Assign to _spouse to avoid recursing on this method.
@@ -292,8 +296,6 @@ class Person(TaxSource):
 
         # If we're adding a new spouse, make sure that it links back:
         if val is not None:
-            if not isinstance(val, Person):  # Spouse must be a Person
-                raise TypeError('Person: spouse must be of type Person')
             # If the new spouse already has a spouse, unlink them too:
             # pylint: disable=protected-access
             if val._spouse is not None:
-- 
2.43.0


From da9f150f7ee830f27779bcf335ed9b0b83893de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:05 +0000
Subject: [PATCH 62/79] fix: living expenses of no one raised TypeError

---
 forecaster/strategy/gross_transaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/strategy/gross_transaction.py b/forecaster/strategy/gross_transaction.py
index d1f3fc6..08b26a0 100644
--- a/forecaster/strategy/gross_transaction.py
+++ b/forecaster/strategy/gross_transaction.py
@@ -159,7 +159,7 @@ class LivingExpensesStrategy(Strategy):
         # Collect the accounts owned by `people` into a flat
         # `set[Account]` object:
         if people is not None:
-            accounts = set.union(*[person.accounts for person in people])
+            accounts = set().union(*[person.accounts for person in people])
         else:
             accounts = None
         # Determine how much to spend on living expenses:
-- 
2.43.0


From 8f6e4338da3afc4697ed094dc5380669b275147f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:36 +0000
Subject: [PATCH 63/79] fix: forget inferred tax brackets when brackets are
 added

Brackets inferred for a year were kept when brackets of a nearer year
were added later, so tax depended on which years had been asked about.
---
 forecaster/tax.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 8eca277..4c95aa6 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -163,6 +163,7 @@ class Tax(HighPrecisionOptional):
         # generate an entry in `accum` for each new bracket:
         self._accum = {}
         self._tax_brackets = {}
+        self._inferred_years = set()
         for year in tax_brackets:
             self.add_brackets(tax_brackets[year], year)
 
@@ -205,7 +206,8 @@ class Tax(HighPrecisionOptional):
                 self._tax_brackets[base_year][key]
                 for key in self._tax_brackets[base_year]
             }
-            self.add_brackets(brackets, year)
+            self._set_brackets(brackets, year)
+            self._inferred_years.add(year)
         if bracket is None:
             return self._tax_brackets[year]
         return self._tax_brackets[year][bracket]
@@ -311,7 +313,16 @@ class Tax(HighPrecisionOptional):
 
         Also generates an `accum` dict based on the tax brackets.
         """
-        year = int(year)
+        # Brackets inferred from those of other years may now be stale:
+        for inferred_year in self._inferred_years:
+            del self._tax_brackets[inferred_year]
+            del self._accum[inferred_year]
+        self._inferred_years.clear()
+
+        self._set_brackets(brackets, int(year))
+
+    def _set_brackets(self, brackets, year):
+        """ Records brackets for `year` and generates their `accum`. """
         # Copy brackets (to avoid external mutation):
         self._tax_brackets[year] = dict(brackets)
 
-- 
2.43.0


From 1651659bccf7e3650d4f084644f08dae767a239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 64/79] fix: bring an account's contributor up to date before
 determining contribution room

---
 forecaster/canada/accounts/registered_account.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/forecaster/canada/accounts/registered_account.py b/forecaster/canada/accounts/registered_account.py
index 589ba6d..3830806 100644
--- a/forecaster/canada/accounts/registered_account.py
+++ b/forecaster/canada/accounts/registered_account.py
@@ -125,6 +125,11 @@ class RegisteredAccount(LinkedLimitAccount):
         # a chance to record the previous year's contribution room
         # before it's updated.
 
+        # Ensure that the contributor has been brought up to this year
+        # (its records for this year may determine next year's room):
+        while self.contributor.this_year < self.this_year:
+            self.contributor.next_year()
+
         # Is this the first account in the linked group to be advanced?
         first_account = all(
             account.this_year == self.this_year
-- 
2.43.0


From 563053831f82dd086e43c232df5e2f30a9f2ad23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:02 +0000
Subject: [PATCH 65/79] fix: keep the flows of nodes not being rebalanced when
 a mate shares their limit

---
 forecaster/strategy/transaction/graph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/forecaster/strategy/transaction/graph.py b/forecaster/strategy/transaction/graph.py
index 82f764c..75d754c 100644
--- a/forecaster/strategy/transaction/graph.py
+++ b/forecaster/strategy/transaction/graph.py
@@ -425,6 +425,11 @@ def _restrict_overflow(
                 edge = graph[from_node][child]
                 restricted_edges[(from_node, child)] = dict(edge)
                 edge[CAPACITY_KEY] = edge_capacity
+                # Capping the flows isn't enough either: a child which
+                # shares a limit with a member of `children` would lose
+                # its flows to that member whenever that costs the same
+                # overall. Break such ties in favour of this child:
+                edge[WEIGHT_KEY] = -1
     return restricted_edges
 
 def _unrestrict_overflow(graph, restricted_edges):
-- 
2.43.0


From a10c3a6cead41aec55cf08744fdaa19590d12e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:25 +0000
Subject: [PATCH 66/79] fix: money available in an account counted as a
 shortfall

---
 forecaster/forecast/subforecast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index a17053e..1cbbe63 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -199,7 +199,8 @@ class SubForecast(Ledger):
             # Consider whether we should instead sum over transactions
             # (for dicts and Accounts) and then add the account opening
             # balance (only for Accounts).
-            self.total_available = available.max_outflow(1)
+            # (`max_outflow` is negative, since it is an outflow.)
+            self.total_available = -available.max_outflow(1)
         else:
             self.total_available = sum(available.values())
 
-- 
2.43.0


From 4287ab01380def6f13ae472d49d8685f88b352a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:14 +0000
Subject: [PATCH 67/79] fix: accept positional arguments after the owner of a
 registered account

---
 forecaster/canada/accounts/registered_account.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/canada/accounts/registered_account.py b/forecaster/canada/accounts/registered_account.py
index 3830806..d8312f7 100644
--- a/forecaster/canada/accounts/registered_account.py
+++ b/forecaster/canada/accounts/registered_account.py
@@ -83,7 +83,7 @@ class RegisteredAccount(LinkedLimitAccount):
         # (We don't store contributor separately, since it's represented
         # in max_inflow_link).
         super().__init__(
-            *args, owner=owner, max_inflow_link=max_inflow_link,
+            owner, *args, max_inflow_link=max_inflow_link,
             max_inflow_limit=max_inflow_limit, **kwargs)
 
         # Set new attributes not handled by the superclass:
-- 
2.43.0


From cd6de4e512aca83781c0e5ea11791555cc17b520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:50 +0000
Subject: [PATCH 68/79] fix: fix the opening balance when an account advances
 to the next year

The balance was computed lazily with the value of nper current when it
was first read, so changing nper after next_year() changed last year's
growth unless the balance had been read first.
---
 forecaster/accounts/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 3d4fe3c..85e0803 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -407,6 +407,11 @@ class Account(TaxSource):
         # `clear` will affect past-year records.)
         self._transactions = defaultdict(lambda: 0) # Money value
 
+        # Determine the opening balance now (it is cached), so that
+        # last year's growth reflects last year's value of `nper` even
+        # if `nper` is changed before `balance` is next read:
+        self.balance  # pylint: disable=pointless-statement,no-member
+
     @property
     def max_outflow_limit(self):
         """ The maximum amount that can be withdrawn from the account.
-- 
2.43.0


From a4a0987a4ce2080ebfeb786d6aedd5077956901d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:15 +0000
Subject: [PATCH 69/79] fix: keep an account with its owner when a new owner is
 refused

Assigning an owner which is not a Person raised TypeError only after the
account had been removed from its owner's accounts.
---
 forecaster/accounts/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 85e0803..0aafe59 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -182,16 +182,16 @@ class Account(TaxSource):
     @owner.setter
     def owner(self, val):
         """ Sets the account's owner. """
+        # For new owners, do basic type-checks before changing anything:
+        if val is not None and not isinstance(val, Person):
+            raise TypeError('Account: owner must be of type Person.')
+
         # Unregister this account from any former owner:
         if self.owner is not None:
             self.owner.accounts.remove(self)
 
-        # For new owners, do basic type-checks and then
-        # bind the account to the owner:
+        # Register with new owner:
         if val is not None:
-            if not isinstance(val, Person):
-                raise TypeError('Account: owner must be of type Person.')
-            # Register with new owner:
             val.accounts.add(self)
 
         self._owner = val
-- 
2.43.0


From ac256e7d2c7f60c37f1adf19e4159e35d41ec35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:48 +0000
Subject: [PATCH 70/79] fix: register an account with its owner only once its
 inputs are valid

An account refused because of its nper or default_timing was left among
its owner's accounts, half-built, and was taxed with them.
---
 forecaster/accounts/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 0aafe59..bf64259 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -164,7 +164,6 @@ class Account(TaxSource):
         self._nper = None
 
         # Set the various property values based on inputs:
-        self.owner = owner
         self.balance = balance # Money value
         self.rate_callable = rate
         self.nper = frequency_conv(nper)
@@ -172,6 +171,9 @@ class Account(TaxSource):
             self.default_timing = Timing(high_precision=high_precision)
         else:
             self.default_timing = default_timing
+        # Register with the owner last, so that an account which can't
+        # be built (e.g. due to an invalid `nper`) isn't left with it:
+        self.owner = owner
         # NOTE: returns is calculated lazily
 
     @property
-- 
2.43.0


From 5073c45fdb81baf37d0f09deb9c90171364c0c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:51 +0000
Subject: [PATCH 71/79] fix: leave an account's transactions alone when an
 amount is refused

Adding an amount that isn't a number raised an error but recorded a
transaction of 0, and assigning one deleted the transaction it was to
replace.
---
 forecaster/accounts/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index bf64259..3a94020 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -369,7 +369,10 @@ class Account(TaxSource):
         # (like PyMoney), attempt conversion here
 
         # Simultaneous transactions are modelled as one sum,
-        self.transactions[when] += value
+        # (Determine the sum first; if `value` is invalid then this
+        # shouldn't leave a transaction behind.)
+        total = self.transactions.get(when, 0) + value # Money value
+        self.transactions[when] = total
 
     def inflows(self, transactions=None):
         """ The sum of all inflows to the account. """
@@ -867,6 +870,9 @@ class Account(TaxSource):
 
     def __setitem__(self, key, value):
         when = when_conv(key, high_precision=self.high_precision)
+        # Ensure that `value` can be recorded (i.e. is a number) before
+        # discarding the value that it replaces:
+        value = 0 + value # Money value
         if when in self._transactions:
             del self._transactions[when]
         self.add_transaction(value=value, when=when)
-- 
2.43.0


From 4ba15f0e733eea6819eda8ea802415114a5e1f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:29 +0000
Subject: [PATCH 72/79] fix: reading a transaction which isn't recorded doesn't
 record one

account[when] recorded a transaction of 0 at any time it was asked about.
---
 forecaster/accounts/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 3a94020..041a73e 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -866,7 +866,9 @@ class Account(TaxSource):
 
     def __getitem__(self, key):
         when = when_conv(key, high_precision=self.high_precision)
-        return self._transactions[when]
+        # (Don't index `_transactions`; it would record a transaction.)
+        return self._transactions.get(
+            when, self.precision_convert(0)) # Money value
 
     def __setitem__(self, key, value):
         when = when_conv(key, high_precision=self.high_precision)
-- 
2.43.0


From 097aab76573a6b7aaeeef3526c025b0513fe5bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:06 +0000
Subject: [PATCH 73/79] fix: keep a person's retirement date when None is
 refused

Assigning None raised NotImplementedError but also erased the date, so
that the person never retired.
---
 forecaster/person.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index e60be7d..6ba1526 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -201,9 +201,8 @@ class Person(TaxSource):
                 Floating retirement dates are not yet implemented.
         """
         if val is None:
-            self._retirement_date = None
-            # NOTE: Delete this error when floating retirement dates
-            # are implemented
+            # NOTE: Set `_retirement_date` to `None` instead of raising
+            # this error when floating retirement dates are implemented
             raise NotImplementedError(
                 'Person: retirement_date must not be None. ' +
                 'Floating retirement dates are not yet implemented.'
-- 
2.43.0


From fad7fa31132760150419a070338298b0d9712ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:17 +0000
Subject: [PATCH 74/79] fix: link a new person's spouse only once the other
 inputs are valid

A person refused because of e.g. an invalid tax_treatment had already
taken the place of the spouse's actual spouse.
---
 forecaster/person.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 6ba1526..0c51909 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -145,7 +145,6 @@ class Person(TaxSource):
         self.birth_date = birth_date
         self.retirement_date = retirement_date
         self.raise_rate_callable = raise_rate
-        self.spouse = spouse
         self.tax_treatment = tax_treatment
 
         # Now provide initial-year values for recorded properties:
@@ -158,6 +157,11 @@ class Person(TaxSource):
         self.accounts = set()
         self.data = {}
 
+        # Link spouses last, so that a person who can't be built (e.g.
+        # due to an invalid `tax_treatment`) isn't left as the spouse
+        # of (and doesn't displace the spouse of) another person:
+        self.spouse = spouse
+
     @property
     def birth_date(self):
         """ The birth date of the Person. """
-- 
2.43.0


From 6cbd588a9f7fd1e299ea9c207e96a5437433cb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:58 +0000
Subject: [PATCH 75/79] fix: record nothing of a year that can't be completed

When one of a ledger's values couldn't be determined (e.g. because no
rate was provided for the year), next_year() raised an error after
recording some of the others, which then no longer followed changes
made before trying again.
---
 forecaster/ledger/base.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/forecaster/ledger/base.py b/forecaster/ledger/base.py
index 7800dda..352cebe 100644
--- a/forecaster/ledger/base.py
+++ b/forecaster/ledger/base.py
@@ -97,16 +97,21 @@ class Ledger(HighPrecisionOptional, metaclass=LedgerType):
         # to the next year:
         # pylint: disable=no-member
         # Pylint gets confused by attributes added by metaclass.
+        # (Determine all values before recording any of them. If one of
+        # them can't be determined then nothing should be recorded, as
+        # the year isn't over and its values may yet change.)
+        values = {}
         for prop in self._recorded_properties:
-            history_dict = getattr(self, prop.history_dict_name)
             # Only add a value to the history dict if one has not
             # already been added for this year:
-            if self.this_year not in history_dict:
-                # NOTE: We could alternatively do this via setattr
-                # (which would call the setter function defined by the
-                # recorded_property decorator - perhaps preferable?)
-                history_dict[self.this_year] = getattr(
+            if self.this_year not in getattr(self, prop.history_dict_name):
+                values[prop.history_dict_name] = getattr(
                     self, prop.__name__)
+        for history_dict_name, value in values.items():
+            # NOTE: We could alternatively do this via setattr
+            # (which would call the setter function defined by the
+            # recorded_property decorator - perhaps preferable?)
+            getattr(self, history_dict_name)[self.this_year] = value
         # Advance to the next year after recording properties:
         self.this_year += 1
 
-- 
2.43.0


From bbcc90e733babf18dbc7ca1c6655fa5a9b0f4b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:01 +0000
Subject: [PATCH 76/79] fix: figures read before a sub-forecast is called don't
 outlive the call

---
 forecaster/forecast/saving.py     | 2 ++
 forecaster/forecast/tax.py        | 6 ++++++
 forecaster/forecast/withdrawal.py | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/forecaster/forecast/saving.py b/forecaster/forecast/saving.py
index ddb692f..094d3cf 100644
--- a/forecaster/forecast/saving.py
+++ b/forecaster/forecast/saving.py
@@ -57,6 +57,8 @@ class SavingForecast(SubForecast):
                 available, accounts=accounts)
         else:
             self.account_transactions = {}
+        # Forget any figures that were read before this call:
+        self.clear_cache()
 
         # NOTE: We let the transactions_strategy determine
         # timing. It will use each account's default timing. Consider
diff --git a/forecaster/forecast/tax.py b/forecaster/forecast/tax.py
index 770597c..6a550af 100644
--- a/forecaster/forecast/tax.py
+++ b/forecaster/forecast/tax.py
@@ -42,6 +42,12 @@ class TaxForecast(SubForecast):
         self.people = people
         self.tax_treatment = tax_treatment
 
+    def __call__(self, available):
+        """ Determines taxes for the year, given what's been recorded. """
+        super().__call__(available)
+        # Forget any figures that were read before this call:
+        self.clear_cache()
+
     @recorded_property_cached
     def tax_withheld(self):
         """ Total taxes withheld on income for the year. """
diff --git a/forecaster/forecast/withdrawal.py b/forecaster/forecast/withdrawal.py
index 82621a4..4a631d3 100644
--- a/forecaster/forecast/withdrawal.py
+++ b/forecaster/forecast/withdrawal.py
@@ -59,6 +59,8 @@ class WithdrawalForecast(SubForecast):
 
         self.account_transactions = self.transaction_strategy(
             available, accounts=self.accounts)
+        # Forget any figures that were read before this call:
+        self.clear_cache()
 
         # pylint: disable=not-an-iterable,unsubscriptable-object,no-member
         # pylint can't infer the type of account_transactions
-- 
2.43.0


From d7d1d06d89ed7678c51b308dd251b72e77f52142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:24 +0000
Subject: [PATCH 77/79] fix: savings and withdrawals of a year aren't those of
 another year, or undone ones

---
 forecaster/forecast/saving.py      | 11 +++++++++++
 forecaster/forecast/subforecast.py |  2 ++
 forecaster/forecast/withdrawal.py  |  6 ++++--
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecast/saving.py b/forecaster/forecast/saving.py
index 094d3cf..9e520f4 100644
--- a/forecaster/forecast/saving.py
+++ b/forecaster/forecast/saving.py
@@ -74,6 +74,17 @@ class SavingForecast(SubForecast):
         # living expenses. (See former `ReductionForecast` code for
         # a related implementation of this.)
 
+    def next_year(self):
+        """ Adds a year to the forecast. """
+        super().next_year()
+        # Nothing has been saved yet in the new year:
+        self.account_transactions = {}
+
+    def undo_transactions(self):
+        """ Reverses all transactions caused by this subforecast. """
+        super().undo_transactions()
+        self.account_transactions = {}
+
     @recorded_property_cached
     def debt_repayment(self):
         """ Total debt repaid for the year from savings. """
diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index 1cbbe63..45241b5 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -175,6 +175,7 @@ class SubForecast(Ledger):
         self._transactions = TransactionDict(
             lambda: defaultdict(lambda: 0)) # Money value
         self._call_invoked = False
+        self.total_available = 0 # Money value
 
     def __call__(self, available):
         """ Records transactions against accounts; mutates `available`. """
@@ -216,6 +217,7 @@ class SubForecast(Ledger):
         # This undoes the effect of __call__, so treat that
         # method as if it was never called:
         self._call_invoked = False
+        self.total_available = 0 # Money value
 
         # If we've cached any recorded_property_cached values, invalidate
         # the cache so they can be re-calculated based on the new input:
diff --git a/forecaster/forecast/withdrawal.py b/forecaster/forecast/withdrawal.py
index 4a631d3..0958b74 100644
--- a/forecaster/forecast/withdrawal.py
+++ b/forecaster/forecast/withdrawal.py
@@ -128,13 +128,15 @@ class WithdrawalForecast(SubForecast):
     def next_year(self):
         """ Adds a year to the forecast. """
         super().next_year()
-        # Nothing has been withheld yet in the new year:
+        # Nothing has been withdrawn or withheld yet in the new year:
+        self.account_transactions = {}
         self.tax_withheld = self.precision_convert(0) # Money value
 
     def undo_transactions(self):
         """ Reverses all transactions cause by this subforecast. """
         super().undo_transactions()
-        # Reset tax_withheld:
+        # Reset withdrawals and tax_withheld:
+        self.account_transactions = {}
         self.tax_withheld = self.precision_convert(0) # Money value
 
     @recorded_property_cached
-- 
2.43.0


From d7425b98a3421846eb6c0d84d5f2970e7a4d4f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:52 +0000
Subject: [PATCH 78/79] fix: records of transactions keep track of parties that
 can't be hashed

`TransactionDict` lost its unhashable keys when copied (so that in copies
of forecasts, the money available for the year was replaced by a number in
all records, and transactions couldn't be undone), and exposed ids when its
items were read. Membership tests, `get` and `del` failed.
---
 forecaster/forecast/subforecast.py | 40 ++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index 45241b5..d534ece 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -58,6 +58,24 @@ class TransactionDict(defaultdict):
         else:
             super().__setitem__(key, value)
 
+    def __delitem__(self, key):
+        """ Deletes the item for a key, even if key is unhashable. """
+        if not isinstance(key, Hashable):
+            super().__delitem__(id(key))
+            del self._unhashablekeys[id(key)]
+        else:
+            super().__delitem__(key)
+
+    def __contains__(self, key):
+        """ Whether there is an item for a key, even if unhashable. """
+        if not isinstance(key, Hashable):
+            key = id(key)
+        return super().__contains__(key)
+
+    def get(self, key, default=None):
+        """ Gets an item (if any) for a key, even if unhashable. """
+        return self[key] if key in self else default
+
     def __iter__(self):
         """ Generates iterator over keys, including unhashable keys. """
         for key in super().__iter__():
@@ -76,6 +94,28 @@ class TransactionDict(defaultdict):
         # (and keys needn't be orderable, so there's no sorting to do)
         return list(self.__iter__())
 
+    def items(self):
+        """ Returns a list of items, including unhashable keys. """
+        # (See `keys` as to why this isn't a view.)
+        return list(zip(self.keys(), self.values()))
+
+    def copy(self):
+        """ Returns a shallow copy with the same (unhashable) keys. """
+        result = type(self)(self.default_factory)
+        for key, value in self.items():
+            result[key] = value
+        return result
+
+    def __copy__(self):
+        """ Supports `copy.copy`. """
+        return self.copy()
+
+    def __reduce__(self):
+        """ Supports `copy.deepcopy` (ids of keys differ for copies). """
+        return (
+            type(self), (self.default_factory,), None, None,
+            iter(self.items()))
+
 class SubForecast(Ledger):
     """ Generic class for implementing part of a financial forecast.
 
-- 
2.43.0


From 0c347a1d916366c57306820350e6211251b79a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:09 +0000
Subject: [PATCH 79/79] fix: a timing of 0 (the start of the year) is not the
 default timing

Account.max_inflows and the like take any input that Timing does, but
tested it for truth, so that 0 was read as no timing at all and the
default (the middle of the year, usually) was used instead.
---
 forecaster/accounts/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 041a73e..604090e 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -543,7 +543,7 @@ class Account(TaxSource):
         change = balance - ref_balance
 
         # Clean inputs:
-        if timing is None or not timing:
+        if timing is None or timing == {}:
             # Use default timing if none was explicitly provided.
             # NOTE: Consider whether we should instead use whatever
             # timing is naturally suggested by the timings of the
-- 
2.43.0

