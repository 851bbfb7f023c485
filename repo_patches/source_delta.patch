From a2abb1c3245c19cadbd134eaafd3e6e2303f1749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 01/86] fix: use the time zone, and not its DST-specific
 variant, for points created from datetimes

TimePoint(dt=...) stored the pytz tzinfo of the datetime, which is specific for its UTC offset (e.g. CET or
CEST for Europe/Rome). Slots before and after a DST change had therefore different time zones, and it was
not possible to append them to the same series.
---
 timeseria/datastructures.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 3b21f9d..ff8fa82 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -122,7 +122,12 @@ class TimePoint(Point):
                         if kwargs['dt'].tzinfo == UTC:
                             pass
                         else:
-                            self._tz = kwargs['dt'].tzinfo
+                            try:
+                                # Pytz time zones attach to each datetime a tzinfo specific for its UTC offset (i.e. CET or
+                                # CEST for Europe/Rome): use the time zone itself, or it will change over DST changes.
+                                self._tz = timezonize(kwargs['dt'].tzinfo.zone)
+                            except AttributeError:
+                                self._tz = kwargs['dt'].tzinfo
                             #raise NotImplementedError('Not yet tz from dt ("{}")'.format(kwargs['dt']))
 
             #else:
-- 
2.43.0


From 9248198cd65dec5e22d3af960328f53272b0d941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 02/86] fix: do not alter the time series when refusing to
 append an item

The resolution and the reference for the time ordering were updated before all of the checks on the
item, so refusing it was leaving the time series with a wrong resolution, or refusing valid items later on.
---
 timeseria/datastructures.py | 106 +++++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 51 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index ff8fa82..91ca9bc 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1231,53 +1231,33 @@ class TimeSeries(Series):
 
         if isinstance(item, TimePoint):
 
-            try:
-                self.prev_t
-            except AttributeError:
-                pass
-            else:
-                # Check time ordering and handle the resolution.
+            # Check time ordering. The following if is also to support the deepcopy
+            # (which sets the attributes of the series before appending the items)
+            if len(self)>0 and issubclass(self.item_type, TimePoint):
 
-                # The following if is to support the deepcopy, otherwise the original prev_t will be used
-                # TODO: maybe move the above to a "hasattr" plus an "and" instead of this logic?
-                if len(self)>0:
+                prev_t = self[-1].t
 
-                    # logger.debug('Checking time ordering for t="%s" (prev_t="%s")', item.t, self.prev_t)
-                    if item.t < self.prev_t:
-                        raise ValueError('Time t="{}" is out of order (prev t="{}")'.format(item.t, self.prev_t))
+                # logger.debug('Checking time ordering for t="%s" (prev_t="%s")', item.t, prev_t)
+                if item.t < prev_t:
+                    raise ValueError('Time t="{}" is out of order (prev t="{}")'.format(item.t, prev_t))
 
-                    if item.t == self.prev_t:
-                        raise ValueError('Time t="{}" is a duplicate'.format(item.t))
+                if item.t == prev_t:
+                    raise ValueError('Time t="{}" is a duplicate'.format(item.t))
 
-                    try:
-                        self._resolution
-
-                    except AttributeError:
-
-                        # Set the resolution as seconds for a bit of performance
-                        self._resolution_as_seconds = item.t - self.prev_t
+            else:
+                prev_t = None
 
-                        # Set the resolution as time unit (up to the microsecond)
-                        time_diff = item.t - self.prev_t
-                        time_diff = int(time_diff*10000000)/10000000
-                        self._resolution = TimeUnit(_to_time_unit_string(time_diff, friendlier=True))
+            # Call the series append, and only if the item was accepted handle the resolution
+            super(TimeSeries, self).append(item)
+            if prev_t is not None:
+                self._handle_resolution(prev_t, item.t)
 
-                    else:
-                        # If the resolution is constant (not variable), check that it still is
-                        if self._resolution != 'variable':
-                            if self._resolution_as_seconds != (item.t - self.prev_t):
-                                # ...otherwise, mark it as variable
-                                del self._resolution_as_seconds
-                                self._resolution = 'variable'
-            finally:
-                # Delete the autodetected sampling interval cache if present
-                try:
-                    del self._autodetected_sampling_interval
-                    del self._autodetected_sampling_interval_confidence
-                except:
-                    pass
-                # And set the prev
-                self.prev_t = item.t
+            # Delete the autodetected sampling interval cache if present
+            try:
+                del self._autodetected_sampling_interval
+                del self._autodetected_sampling_interval_confidence
+            except:
+                pass
 
         elif isinstance(item, TimeSlot):
 
@@ -1285,14 +1265,9 @@ class TimeSeries(Series):
             # and if they have the same unit, which we test here instead as the __succedes__ is more general.
 
             # Check the timezone (only for slots, points are not affected by timezones)
-            if not self.tz:
-                # If no timezone set, use the item one's
-                self._tz = item.tz
-
-            else:
-                # Else, check for the same timezone
-                if self._tz != item.tz:
-                    raise ValueError('Cannot append slots on different timezones (I have "{}" and you tried to add "{}")'.format(self.tz, item.start.tz))
+            series_tz = getattr(self, '_tz', None)
+            if series_tz and series_tz != item.tz:
+                raise ValueError('Cannot append slots on different timezones (I have "{}" and you tried to add "{}")'.format(self.tz, item.start.tz))
 
             try:
                 if self._resolution != item.unit:
@@ -1305,14 +1280,43 @@ class TimeSeries(Series):
                         abort = True
                     if abort:
                         raise ValueError('Cannot add slots with a different unit than the series resolution (I have "{}" and you tried to add "{}")'.format(self._resolution, item.unit))
+            except AttributeError:
+                pass
+
+            # Call the series append, and only if the item was accepted set timezone and resolution
+            super(TimeSeries, self).append(item)
+            if not series_tz:
+                self._tz = item.tz
+            try:
+                self._resolution
             except AttributeError:
                 self._resolution = item.unit
 
         else:
             raise TypeError('Adding data to a time series only accepts TimePoints o TimeSlots (got "{}")'.format(item.__class__.__name__))
 
-        # Lastly, call the series append
-        super(TimeSeries, self).append(item)
+    def _handle_resolution(self, prev_t, t):
+
+        try:
+            self._resolution
+
+        except AttributeError:
+
+            # Set the resolution as seconds for a bit of performance
+            self._resolution_as_seconds = t - prev_t
+
+            # Set the resolution as time unit (up to the microsecond)
+            time_diff = t - prev_t
+            time_diff = int(time_diff*10000000)/10000000
+            self._resolution = TimeUnit(_to_time_unit_string(time_diff, friendlier=True))
+
+        else:
+            # If the resolution is constant (not variable), check that it still is
+            if self._resolution != 'variable':
+                if self._resolution_as_seconds != (t - prev_t):
+                    # ...otherwise, mark it as variable
+                    del self._resolution_as_seconds
+                    self._resolution = 'variable'
 
     def _item_by_t(self, t):
         # TODO: improve performance, bisection first, then use an index?
-- 
2.43.0


From 95d1d8474b9fbb179fcc8dec2cb3ca12775ea4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 03/86] fix: clear the autodetected sampling interval and the
 guessed resolution when appending

Deleting a property without a deleter always raises, and the caches were therefore never cleared.
---
 timeseria/datastructures.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 91ca9bc..7c7194c 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1252,12 +1252,7 @@ class TimeSeries(Series):
             if prev_t is not None:
                 self._handle_resolution(prev_t, item.t)
 
-            # Delete the autodetected sampling interval cache if present
-            try:
-                del self._autodetected_sampling_interval
-                del self._autodetected_sampling_interval_confidence
-            except:
-                pass
+            self._reset_autodetected()
 
         elif isinstance(item, TimeSlot):
 
@@ -1318,6 +1313,13 @@ class TimeSeries(Series):
                     del self._resolution_as_seconds
                     self._resolution = 'variable'
 
+    def _reset_autodetected(self):
+        # Delete the autodetected sampling interval and the guessed resolution caches if present
+        for attribute in ['_TimeSeries__autodetected_sampling_interval',
+                          '_TimeSeries__autodetected_sampling_interval_confidence',
+                          '_guessed_resolution']:
+            self.__dict__.pop(attribute, None)
+
     def _item_by_t(self, t):
         # TODO: improve performance, bisection first, then use an index?
         for item in self:
-- 
2.43.0


From e1202aa38b0e0d5f4aaefb02f6915527232617b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 04/86] fix: check the data of appended items against the items
 actually in the series

If the reference data was falsy (e.g. zero or an empty dictionary) no checks were made at all, and if the first
item was removed and the data labels renamed the reference data was not the one of the series anymore.
---
 timeseria/datastructures.py | 42 ++++++++++++++++++++++++-------------
 timeseria/operations.py     | 12 -----------
 2 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 7c7194c..7d14376 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -684,25 +684,37 @@ class Series(list):
                 except TypeError:
                     raise TypeError('Object of class "{}" does not implement a "__gt__" or a "__succedes__" method, cannot append it to a Series (which is ordered)'.format(item.__class__.__name__)) from None
 
-        # Check data type and set if not done already
-        if self and self._item_data_reference:
-            if not type(self._item_data_reference) == type(item.data):
-                raise TypeError('Got different data: {} vs {}'.format(self._item_data_reference.__class__.__name__, item.data.__class__.__name__))
-            if isinstance(self._item_data_reference, list):
-                if len(self._item_data_reference) != len(item.data):
-                    raise ValueError('Got different data lengths: {} vs {}'.format(len(self._item_data_reference), len(item.data)))
-            if isinstance(self._item_data_reference, dict):
-                if set(self._item_data_reference.keys()) != set(item.data.keys()):
-                    raise ValueError('Got different data labels: {} vs {}'.format(self._item_data_reference.keys(), item.data.keys()))
-        else:
-            try:
-                self._item_data_reference = item.data
-            except AttributeError:
-                self._item_data_reference = None
+        # Check data type, length and labels
+        self._check_item_data(item)
 
         # Append
         super(Series, self).append(item)
 
+    @property
+    def _item_data_reference(self):
+        # All the items have the same data type and labels, or the same length
+        try:
+            return self._item_by_i(0).data
+        except (IndexError, AttributeError):
+            return None
+
+    def _check_item_data(self, item):
+        if not self:
+            return
+        try:
+            data_reference = self._item_by_i(0).data
+        except AttributeError:
+            # No data
+            return
+        if not type(data_reference) == type(item.data):
+            raise TypeError('Got different data: {} vs {}'.format(data_reference.__class__.__name__, item.data.__class__.__name__))
+        if isinstance(data_reference, list):
+            if len(data_reference) != len(item.data):
+                raise ValueError('Got different data lengths: {} vs {}'.format(len(data_reference), len(item.data)))
+        if isinstance(data_reference, dict):
+            if set(data_reference.keys()) != set(item.data.keys()):
+                raise ValueError('Got different data labels: {} vs {}'.format(data_reference.keys(), item.data.keys()))
+
     def __sum__(self, other):
         raise NotImplementedError
 
diff --git a/timeseria/operations.py b/timeseria/operations.py
index 70906f5..b112a8d 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -869,12 +869,6 @@ class Filter(Operation):
             filtered_item._data = {data_label: item._data_by_label(data_label) for data_label in data_labels}
             filtered_series.append(filtered_item)
 
-        # Re-set reference data as well
-        try:
-            filtered_series._item_data_reference = filtered_series[0].data
-        except (AttributeError, IndexError):
-            pass
-
         return filtered_series
 
 
@@ -990,12 +984,6 @@ class Slice(Operation):
             for item in series:
                 sliced_series.append(item)
 
-        # Re-set reference data as well
-        try:
-            sliced_series._item_data_reference = sliced_series[0].data
-        except (IndexError, AttributeError):
-            pass
-
         return sliced_series
 
 
-- 
2.43.0


From 8f460101793a628ac047ba933f6c0d875906d1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 05/86] fix: enforce data checks and ordering on both sides
 when inserting an item in a series

Inserting was not checking the data type and labels, nor the order with respect to the following item.
---
 timeseria/datastructures.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 7d14376..587d146 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -763,6 +763,15 @@ class Series(list):
             if not isinstance(x, self.item_type):
                 raise TypeError('Got incompatible type "{}", can only accept "{}"'.format(x.__class__.__name__, self.item_type.__name__))
 
+            # Check data type, length and labels
+            self._check_item_data(x)
+
+            # Handle negative positions
+            if i < 0:
+                i += len(self)
+            if i < 0 or i > len(self):
+                raise IndexError('Cannot insert an item out of the boundaries of the series')
+
             # Check ordering/succession
             if i == 0:
                 try:
@@ -784,7 +793,7 @@ class Series(list):
                 try:
                     self[0].__succedes__
                 except AttributeError:
-                    if not x > self[i-1]:
+                    if not x > self[i-1] or not self[i] > x:
                         raise ValueError('Cannot insert element "{}" in position "{}" with element "{}" as not in order'.format(x,i, self[i])) from None
                 else:
                     raise IndexError('Cannot insert an item in the middle of a series whose items follow a succession'.format(i))
-- 
2.43.0


From 4818c58418252b5463fc020caf54a148cfea303d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 06/86] fix: make the index() method of the series return the
 index

It was always raising without the optional arguments, and never returning.
---
 timeseria/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 587d146..60ee374 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -850,7 +850,7 @@ class Series(list):
         used to limit the search to a particular subsequence of the list. The returned index is
         computed relative to the beginning of the full sequence rather than the start argument.
         """
-        super(Series, self).index(x, start, end)
+        return super(Series, self).index(x, 0 if start is None else start, len(self) if end is None else end)
 
     def copy(self):
         """Return a shallow copy of the series."""
-- 
2.43.0


From 71b8171a2821be2c21906e0e29498b9cbb8cc83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 07/86] fix: keep the resolution of time series updated when
 inserting and removing items

Inserting, removing and popping items as well as clearing the series were not updating the resolution, and
inserting a slot at the beginning of the series was not checking for its unit and time zone.
---
 timeseria/datastructures.py | 89 +++++++++++++++++++++++++++++--------
 1 file changed, 70 insertions(+), 19 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 60ee374..7ed0c6f 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1280,28 +1280,11 @@ class TimeSeries(Series):
             # Slots can belong to the same series if they are in succession (tested with the __succedes__ method)
             # and if they have the same unit, which we test here instead as the __succedes__ is more general.
 
-            # Check the timezone (only for slots, points are not affected by timezones)
-            series_tz = getattr(self, '_tz', None)
-            if series_tz and series_tz != item.tz:
-                raise ValueError('Cannot append slots on different timezones (I have "{}" and you tried to add "{}")'.format(self.tz, item.start.tz))
-
-            try:
-                if self._resolution != item.unit:
-                    # Try for floating point precision errors
-                    abort = False
-                    try:
-                        if not _is_close(self._resolution, item.unit):
-                            abort = True
-                    except (TypeError, ValueError, NotImplementedError):
-                        abort = True
-                    if abort:
-                        raise ValueError('Cannot add slots with a different unit than the series resolution (I have "{}" and you tried to add "{}")'.format(self._resolution, item.unit))
-            except AttributeError:
-                pass
+            self._check_slot(item)
 
             # Call the series append, and only if the item was accepted set timezone and resolution
             super(TimeSeries, self).append(item)
-            if not series_tz:
+            if not getattr(self, '_tz', None):
                 self._tz = item.tz
             try:
                 self._resolution
@@ -1311,6 +1294,74 @@ class TimeSeries(Series):
         else:
             raise TypeError('Adding data to a time series only accepts TimePoints o TimeSlots (got "{}")'.format(item.__class__.__name__))
 
+    def _check_slot(self, item):
+
+        # Check the timezone (only for slots, points are not affected by timezones)
+        series_tz = getattr(self, '_tz', None)
+        if series_tz and series_tz != item.tz:
+            raise ValueError('Cannot append slots on different timezones (I have "{}" and you tried to add "{}")'.format(self.tz, item.start.tz))
+
+        try:
+            if self._resolution != item.unit:
+                # Try for floating point precision errors
+                abort = False
+                try:
+                    if not _is_close(self._resolution, item.unit):
+                        abort = True
+                except (TypeError, ValueError, NotImplementedError):
+                    abort = True
+                if abort:
+                    raise ValueError('Cannot add slots with a different unit than the series resolution (I have "{}" and you tried to add "{}")'.format(self._resolution, item.unit))
+        except AttributeError:
+            pass
+
+    def insert(self, i, x):
+        """Insert an item at a given position. The first argument is the index of the element
+        before which to insert, so series.insert(0, x) inserts at the front of the series, and
+        series.insert(len(series), x) is equivalent to append(x). Order or succession are enforced."""
+        if isinstance(x, TimeSlot):
+            self._check_slot(x)
+        super(TimeSeries, self).insert(i, x)
+        self._reset_resolution()
+
+    def remove(self, x):
+        """Remove the first item from the list whose value is equal to x. It raises a `ValueError` if there is no such item
+        and a `NotImplementedError` is the series items are in a succession as it would breake it.
+        """
+        super(TimeSeries, self).remove(x)
+        self._reset_resolution()
+
+    def pop(self, i=None):
+        """
+        Remove the item at the given position in the list, and return it. If no index is
+        specified, removes and returns the last item in the series. If items are in a
+        succession and the index is set, a `NotImplementerError` is raised.
+        """
+        item = super(TimeSeries, self).pop(i)
+        self._reset_resolution()
+        return item
+
+    def clear(self):
+        """Remove all items from the series."""
+        super(TimeSeries, self).clear()
+        self._reset_resolution()
+
+    def _reset_resolution(self):
+        # Recompute the resolution, when the items change in other ways than by appending
+        self._reset_autodetected()
+        for attribute in ['_resolution', '_resolution_as_seconds']:
+            self.__dict__.pop(attribute, None)
+        prev_t = None
+        for item in self:
+            if isinstance(item, TimeSlot):
+                self._resolution = item.unit
+                break
+            if prev_t is not None:
+                self._handle_resolution(prev_t, item.t)
+                if self._resolution == 'variable':
+                    break
+            prev_t = item.t
+
     def _handle_resolution(self, prev_t, t):
 
         try:
-- 
2.43.0


From 223d6b05257eed1c3851cd026e01806806a67613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 08/86] fix: report the right resolution for sub-second
 sampling intervals

The resolution string was obtained removing every '.0' (e.g. 1.05 seconds were becoming 15 seconds, and 0.05 seconds
an invalid or wrong one), and floating point errors on the timestamps were causing a variable resolution.
---
 timeseria/datastructures.py | 7 +++----
 timeseria/utilities.py      | 3 ++-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 7ed0c6f..3a00ad5 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -461,7 +461,7 @@ class TimeSlot(Slot):
             return self._unit
         except AttributeError:
             # Use the string representation to handle floating point seconds
-            self._unit = TimeUnit(str(self.end.t-self.start.t)+'s')
+            self._unit = TimeUnit(_to_time_unit_string(self.end.t-self.start.t, friendlier=False))
             return self._unit
 
     @property
@@ -1373,14 +1373,13 @@ class TimeSeries(Series):
             self._resolution_as_seconds = t - prev_t
 
             # Set the resolution as time unit (up to the microsecond)
-            time_diff = t - prev_t
-            time_diff = int(time_diff*10000000)/10000000
+            time_diff = round(t - prev_t, 6)
             self._resolution = TimeUnit(_to_time_unit_string(time_diff, friendlier=True))
 
         else:
             # If the resolution is constant (not variable), check that it still is
             if self._resolution != 'variable':
-                if self._resolution_as_seconds != (t - prev_t):
+                if abs(self._resolution_as_seconds - (t - prev_t)) > 0.000001:
                     # ...otherwise, mark it as variable
                     del self._resolution_as_seconds
                     self._resolution = 'variable'
diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 40bb075..82760e6 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -956,7 +956,8 @@ def _to_float(string,no_data_placeholders=[],label=None):
 def _to_time_unit_string(seconds, friendlier=True):
     """Converts seconds to a (friendlier) time unit string, as 1s, 1h, 10m etc.)"""
 
-    seconds_str = str(seconds).replace('.0', '')
+    # Up to the microsecond, without trailing zeros and never using the exponential notation
+    seconds_str = '{:.6f}'.format(seconds).rstrip('0').rstrip('.')
     if friendlier:
         if seconds_str == '60':
             seconds_str = '1m'
-- 
2.43.0


From f89b720ee5a91ad819a6ec4c82a9da2c0c8821f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 09/86] fix: time units from any number of seconds and from the
 value argument

Microseconds and numbers with floating point errors were refused, and the value argument was always raising a KeyError.
---
 timeseria/units.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/timeseria/units.py b/timeseria/units.py
index b175157..e01fab6 100644
--- a/timeseria/units.py
+++ b/timeseria/units.py
@@ -1,7 +1,7 @@
 # -*- coding: utf-8 -*-
 """Units, including the TimeUnit, which fully supports calendar arithmetic."""
 
-from .utilities import is_numerical
+from .utilities import is_numerical, _to_time_unit_string
 from propertime import TimeSpan
 
 # Setup logging
@@ -149,9 +149,9 @@ class TimeUnit(TimeSpan, Unit):
     def __init__(self, *args, **kwargs):
         if args and (isinstance(args[0], int) or isinstance(args[0], float)):
             args = list(args)
-            args[0] = '{}s'.format(args[0])
-        if kwargs and 'value' in kwargs and (isinstance(kwargs['seconds'], int) or isinstance(kwargs['seconds'], float)) :
-            kwargs['seconds'] = kwargs.pop('value')
+            args[0] = _to_time_unit_string(args[0], friendlier=False)
+        if kwargs and 'value' in kwargs and (isinstance(kwargs['value'], int) or isinstance(kwargs['value'], float)):
+            kwargs['value'] = _to_time_unit_string(kwargs['value'], friendlier=False)
         super(TimeUnit, self).__init__(*args, **kwargs)
 
     # Support for TimePoints and this TimeUnit class
-- 
2.43.0


From 310e3251846ca389068b28046c4af651c428e72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 10/86] fix: use an absolute tolerance when checking the
 succession of time slots

With a relative tolerance of 1e-9 on epoch timestamps, gaps and overlaps of more than a second were accepted,
and for sub-second slots entire missing or duplicate slots.
---
 timeseria/datastructures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 3a00ad5..35771dc 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -441,8 +441,9 @@ class TimeSlot(Slot):
     # Overwrite parent succedes, this has better performance as it checks for only one dimension
     def __succedes__(self, other):
         if other.end.t != self.start.t:
-            # Take into account floating point rounding errors
-            if _is_close(other.end.t, self.start.t):
+            # Take into account floating point rounding errors (up to the microsecond, a
+            # relative tolerance would be in the order of seconds for epoch timestamps)
+            if _is_close(other.end.t, self.start.t, rel_tol=0, abs_tol=0.000001):
                 return True
             return False
         else:
-- 
2.43.0


From 76bc12a0ef6811731fb205ca8b3a2cdf293fb009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 11/86] fix: allow to subtract a unit from a point

It was raising a TypeError, as trying to change the sign of the resulting point.
---
 timeseria/units.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/timeseria/units.py b/timeseria/units.py
index e01fab6..cebabb0 100644
--- a/timeseria/units.py
+++ b/timeseria/units.py
@@ -66,7 +66,11 @@ class Unit(object):
             raise NotImplementedError('Don\'t know how to subtract Units with {}'.format(other.__class__.__name__))
 
     def __rsub__(self, other):
-        return -self.__sub__(other)
+        difference = self.__sub__(other)
+        try:
+            return difference.__class__(*[-coordinate for coordinate in difference.coordinates])
+        except AttributeError:
+            return -difference
 
     def __truediv__(self, other):
 
-- 
2.43.0


From b2008557626c0226950b3c297a5ae0c5f336f552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 12/86] fix: refuse out of range negative positions and allow
 slicing time series with open bounds and steps

---
 timeseria/datastructures.py | 12 ++++++++++--
 timeseria/operations.py     |  2 ++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 35771dc..3c07e93 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1166,7 +1166,7 @@ class Series(list):
             Args:
                 n: the number of last elements to return .
         """
-        return list(self[-n:])
+        return list(self[-n:]) if n else []
 
 
 
@@ -1406,7 +1406,15 @@ class TimeSeries(Series):
 
     def __getitem__(self, arg):
         if isinstance(arg, slice):
-            if isinstance(arg.start, int) or isinstance(arg.stop, int):
+            if arg.step is not None and arg.step != 1:
+                # Support steps as in lists (order and succession will be enforced)
+                for value in (arg.start, arg.stop):
+                    if not (value is None or isinstance(value, int)):
+                        raise ValueError('Slicing with a step is only supported for positions')
+                return super(TimeSeries, self).__getitem__(arg)
+            elif arg.start is None and arg.stop is None:
+                return self.slice()
+            elif isinstance(arg.start, int) or isinstance(arg.stop, int):
                 return self.slice(from_i=arg.start, to_i=arg.stop)
             elif isinstance(arg.start, float) or isinstance(arg.stop, float):
                 if arg.start is not None and not (isinstance(arg.start, Time)):
diff --git a/timeseria/operations.py b/timeseria/operations.py
index b112a8d..6f8992e 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -836,6 +836,8 @@ class Get(Operation):
 
         # Handle negative index
         if at_i is not None and at_i < 0:
+            if abs(at_i) > len(series):
+                raise IndexError('Index out of range (got "{}" for a series of {} items)'.format(at_i, len(series)))
             at_i = len(series) - abs(at_i)
 
         if at_i is not None:
-- 
2.43.0


From 1ed357c787935e7489f546ee9e3535b21b504d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 13/86] fix: make time series views behave as the part of the
 series they cover

---
 timeseria/datastructures.py           | 94 ++++++++++++---------------
 timeseria/models/anomaly_detectors.py |  8 ++-
 timeseria/models/forecasters.py       |  8 ++-
 3 files changed, 55 insertions(+), 55 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 3c07e93..b3f8754 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1890,72 +1890,67 @@ class TimeSeriesView(TimeSeries):
 
     def __init__(self, *items, series=None, from_i=None, to_i=None, **kwargs):
         self.series = series
+        if series is not None:
+            # Same semantics of the slicing: open, negative and out of range boundaries are all supported
+            from_i, to_i, _ = slice(from_i, to_i).indices(len(series))
+            to_i = max(from_i, to_i)
         self.from_i = from_i
         self.to_i = to_i
         self.len = None
         # Call parent init in case we are using the series view as a normal series
         super().__init__(*items, **kwargs)
 
-    def __getitem__(self, arg):
-
+    def _item_by_i(self, i):
         if self.series:
+            if i < 0:
+                i += len(self)
+            if i < 0 or i >= len(self):
+                raise IndexError('Index out of range')
+            return self.series[self.from_i + i]
+        else:
+            return super()._item_by_i(i)
 
-            if isinstance(arg, slice):
-
-                if isinstance(arg.start, int):
-                    if arg.start>=0:
-                        slice_start =  self.from_i + arg.start
-                    else:
-                        slice_start =  self.to_i - abs(arg.start)
-                elif arg.start is None:
-                    slice_start = self.from_i
-                else:
-                    slice_start = arg.start
-
-                if isinstance(arg.stop, int):
-                    if arg.stop>=0:
-                        slice_stop =  self.from_i + arg.stop
-                    else:
-                        slice_stop =  self.to_i - abs(arg.stop)
-                elif arg.stop is None:
-                    slice_stop = self.to_i
-                else:
-                    slice_stop = arg.stop
-
-                return self.series[slice_start:slice_stop]
-
-            else:
-                if isinstance(arg, int):
-                    if arg>=0:
-                        return self.series[self.from_i + arg]
-                    else:
-                        return self.series[self.to_i - abs(arg)]
-                else:
-                    return super().__getitem__(arg)
+    def __getitem__(self, arg):
+        if self.series and isinstance(arg, slice) and arg.step is not None and arg.step != 1:
+            return self.slice()[arg]
         else:
             return super().__getitem__(arg)
 
     def __iter__(self):
         if self.series:
-            self.count = 0
-            return self
+            return (self.series[i] for i in range(self.from_i, self.to_i))
         else:
             return super().__iter__()
 
-    def __next__(self):
+    def __reversed__(self):
         if self.series:
-            this_i = self.count + self.from_i
+            return (self.series[i] for i in range(self.to_i - 1, self.from_i - 1, -1))
+        else:
+            return super().__reversed__()
 
-            if this_i >= self.to_i:
-                # If reached the end stop
-                raise StopIteration
+    def __contains__(self, x):
+        if self.series:
+            return any(item is x or item == x for item in self)
+        else:
+            return super().__contains__(x)
 
-            else:
-                # Otherwise return the corresponding item
-                self.count += 1
-                return self.series[this_i]
+    def __eq__(self, other):
+        if isinstance(other, list):
+            return len(self) == len(other) and all(item is other_item or item == other_item for item, other_item in zip(self, other))
+        else:
+            return NotImplemented
+
+    def __ne__(self, other):
+        return not self == other
+
+    def __hash__(self):
+        return id(self)
+
+    def index(self, x, start=None, end=None):
+        if self.series:
+            return self.contents().index(x, 0 if start is None else start, len(self) if end is None else end)
         else:
-            return super().__next__()
+            return super().index(x, start, end)
 
     def __len__(self):
         if self.series:
@@ -1970,10 +1965,7 @@ class TimeSeriesView(TimeSeries):
             return super().__repr__()
 
     def __bool__(self):
-        if self.series is not None:
-            return True if len(self.series) else False
-        else:
-            return True if len(self) else False
+        return True if len(self) else False
 
     @property
     def item_type(self):
@@ -1991,7 +1983,7 @@ class TimeSeriesView(TimeSeries):
 
     def data_labels(self):
         if self.series:
-            return self.series.data_labels()
+            return self.series.data_labels() if self else None
         else:
             return super().data_labels()
 
diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 1eb623d..c3ad201 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -228,10 +228,14 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
 
             elif issubclass(self.model_class, Forecaster):
 
+                # There is nothing before the first item, in this case use the entire series
+                # (only models without a window can be requested to predict the first item)
+                previous = series.view(from_i=0, to_i=i) if i > 0 else series
+
                 if with_context:
-                    prediction = self.models[data_label].predict(series.view(from_i=0, to_i=i), steps=1, context_data=series[i].data)
+                    prediction = self.models[data_label].predict(previous, steps=1, context_data=series[i].data)
                 else:
-                    prediction = self.model.predict(series.view(from_i=0, to_i=i), steps=1)
+                    prediction = self.model.predict(previous, steps=1)
 
             else:
                 raise TypeError('Don\'t know how to handle predictive model class "{}"'.format(self.model_class.__name__))
diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index e15e6bb..bf7b721 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -62,10 +62,14 @@ class Forecaster(Model):
 
     def _get_predicted_value(self, series, i, data_label, with_context):
 
+        # There is nothing before the first item, in this case use the entire series
+        # (only models without a window can be requested to predict the first item)
+        previous = series.view(from_i=0, to_i=i) if i > 0 else series
+
         if with_context:
-            prediction = self.predict(series.view(from_i=0, to_i=i), steps=1, context_data=series[i].data)
+            prediction = self.predict(previous, steps=1, context_data=series[i].data)
         else:
-            prediction = self.predict(series.view(from_i=0, to_i=i), steps=1)
+            prediction = self.predict(previous, steps=1)
 
         # Handle list of dicts or dict of lists (of which we have only one value here)
         #{'value': [0.2019341593004146, 0.29462641146884005]}
-- 
2.43.0


From da8703426138c30091ef1a4635d4c6bc84d6c194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 14/86] fix: do not share data indexes and slot boundaries
 between items

---
 timeseria/datastructures.py | 9 ++++++++-
 timeseria/operations.py     | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index b3f8754..31253f8 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -2,7 +2,7 @@
 """Base data structures as Points, Slots and Series."""
 
 import json
-from copy import deepcopy
+from copy import copy, deepcopy
 from pandas import DataFrame
 from datetime import datetime
 from pytz import UTC
@@ -205,6 +205,8 @@ class DataPoint(Point):
             else:
                 if not isinstance(data_indexes, dict):
                     raise ValueError('Got type "{}" for data_indexes, was expecitng a dict'.format(data_indexes.__class__.__name__))
+                # Do not share the indexes with other items
+                data_indexes = dict(data_indexes)
         except KeyError:
             data_indexes = {}
         #else:
@@ -451,7 +453,10 @@ class TimeSlot(Slot):
 
     def change_tz(self, tz):
         """Change the time zone of the slot, in-place."""
+        # The start and end points might be in use by other slots as well
+        self.start = copy(self.start)
         self.start.change_tz(tz)
+        self.end = copy(self.end)
         self.end.change_tz(tz)
         self.tz = self.start.tz
 
@@ -508,6 +513,8 @@ class DataSlot(Slot):
             else:
                 if not isinstance(data_indexes, dict):
                     raise ValueError('Got type "{}" for data_indexes, was expecitng a dict'.format(data_indexes.__class__.__name__))
+                # Do not share the indexes with other items
+                data_indexes = dict(data_indexes)
         except KeyError:
             data_indexes = {}
         #else:
diff --git a/timeseria/operations.py b/timeseria/operations.py
index 6f8992e..bbc7c76 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -868,6 +868,7 @@ class Filter(Operation):
             raise TypeError('Cannot filter by data label on non key-value data (Got "{}")'.format(series[0].data.__class__.__name__))
         for item in series:
             filtered_item = copy(item)
+            filtered_item.data_indexes = dict(item.data_indexes)
             filtered_item._data = {data_label: item._data_by_label(data_label) for data_label in data_labels}
             filtered_series.append(filtered_item)
 
-- 
2.43.0


From 877b93a6550b2264fe22c9a2e4c28abfc208bcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 15/86] fix: derivatives and integrals over the actual elapsed
 time, for each label on its own and in-place

---
 timeseria/operations.py | 86 ++++++++++++++++-------------------------
 1 file changed, 34 insertions(+), 52 deletions(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index bbc7c76..aedf9d2 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -238,17 +238,6 @@ class Derivative(Operation):
             raise NotImplementedError('Computing differences in-place is not supported as it would change the series length')
 
         if normalize:
-            if series.resolution == 'variable':
-                variable_resolution = True
-                sampling_interval = series._autodetected_sampling_interval
-            else:
-                variable_resolution = False
-                if isinstance(series.resolution, TimeUnit):
-                    sampling_interval = series.resolution.as_seconds(series[0].dt)
-                elif isinstance(series.resolution, Unit):
-                    sampling_interval = series.resolution
-                else:
-                    sampling_interval = series.resolution
             postfix='derivative'
         else:
             postfix='diff'
@@ -264,6 +253,10 @@ class Derivative(Operation):
         except TypeError:
             data_is_keyvalue = False
 
+        # In-place, set the new values only once they have all been computed
+        data_labels = series.data_labels()
+        inplace_values = []
+
         for i, item in enumerate(series):
 
             # Skip the first element if computing diffs
@@ -273,7 +266,7 @@ class Derivative(Operation):
             if not inplace:
                 der_data = series[0].data.__class__()
 
-            for data_label in series.data_labels():
+            for data_label in data_labels:
                 diff_left = None
                 diff_right = None
                 diff = None
@@ -296,19 +289,17 @@ class Derivative(Operation):
                         diff_left = series[i]._data_by_label(data_label) - series[i-1]._data_by_label(data_label)
                         diff_right = series[i+1]._data_by_label(data_label) - series[i]._data_by_label(data_label)
 
-                # Combine and normalize (if required) the increments to get the actual derivative
+                # Combine and normalize (if required) the increments to get the actual derivative,
+                # always using the actual elapsed time (which is not constant for calendar units)
                 if normalize:
                     if diff is not None:
-                        diff = diff / sampling_interval
+                        diff = diff / (series[i].t - series[i-1].t)
                     elif diff_right is None:
-                        diff = diff_left / sampling_interval
+                        diff = diff_left / (series[i].t - series[i-1].t)
                     elif diff_left is None:
-                        diff = diff_right / sampling_interval
+                        diff = diff_right / (series[i+1].t - series[i].t)
                     else:
-                        if variable_resolution:
-                            diff = ((diff_left / (series[i].t - series[i-1].t)) + (diff_right / (series[i+1].t - series[i].t))) /2
-                        else:
-                            diff = ((diff_left + diff_right)/2)/sampling_interval
+                        diff = ((diff_left / (series[i].t - series[i-1].t)) + (diff_right / (series[i+1].t - series[i].t))) /2
                 else:
                     if diff is not None:
                         pass
@@ -327,9 +318,9 @@ class Derivative(Operation):
                         der_data.append(diff)
                 else:
                     if data_is_keyvalue:
-                        item.data['{}_{}'.format(data_label, postfix)] = diff
+                        inplace_values.append((item, '{}_{}'.format(data_label, postfix), diff))
                     else:
-                        item.data[int(data_label)] = diff
+                        inplace_values.append((item, int(data_label), diff))
 
 
             # Create the item
@@ -348,6 +339,9 @@ class Derivative(Operation):
                 else:
                     raise NotImplementedError('Working on series other than slots or points not yet implemented')
 
+        for item, data_label, value in inplace_values:
+            item.data[data_label] = value
+
         if not inplace:
             return der_series
 
@@ -371,17 +365,6 @@ class Integral(Operation):
                 raise TypeError('Series items are not Points nor Slots, cannot compute an integral')
 
         if normalize:
-            if series.resolution == 'variable':
-                variable_resolution = True
-                sampling_interval = series._autodetected_sampling_interval
-            else:
-                variable_resolution = False
-                if isinstance(series.resolution, TimeUnit):
-                    sampling_interval = series.resolution.as_seconds(series[0].dt)
-                elif isinstance(series.resolution, Unit):
-                    sampling_interval = series.resolution
-                else:
-                    sampling_interval = series.resolution
             postfix='integral'
         else:
             postfix='csum'
@@ -398,6 +381,11 @@ class Integral(Operation):
             data_is_keyvalue = False
 
         last_values={}
+        prev_right_components={}
+
+        # In-place, set the new values only once they have all been computed
+        data_labels = series.data_labels()
+        inplace_values = []
 
         for i, item in enumerate(series):
 
@@ -421,7 +409,7 @@ class Integral(Operation):
                             prev_data['{}_{}'.format(data_label,postfix)] = offset
                     else:
                         for data_label in series.data_labels():
-                            prev_data.append(offset[data_label])
+                            prev_data.append(offset)
 
                 if isinstance(item, Point):
                     int_series.append(item.__class__(t = item.t - series.resolution,
@@ -440,7 +428,7 @@ class Integral(Operation):
             if not inplace:
                 data = series[0].data.__class__()
 
-            for data_label in series.data_labels():
+            for data_label in data_labels:
 
                 # Get the value
                 if not normalize:
@@ -449,22 +437,13 @@ class Integral(Operation):
                     # Compute the integral
                     if i == 0:
                         value=0
-                        prev_right_component = series[i]._data_by_label(data_label)
+                        prev_right_components[data_label] = series[i]._data_by_label(data_label)
                     else:
-                        left_component = (series[i-1]._data_by_label(data_label)*2) - prev_right_component
-                        # The "value" below is actually an increment, see below at  value = last_values[data_label] + value
-                        value = left_component
-                        prev_right_component = left_component
-
-                # Normalize the cumulative to get the actual integral
-                if normalize:
-                    if variable_resolution:
-                        if i == 0:
-                            value = value * sampling_interval
-                        else:
-                            value = value * (series[i].t - series[i-1].t)
-                    else:
-                        value = value * sampling_interval
+                        left_component = (series[i-1]._data_by_label(data_label)*2) - prev_right_components[data_label]
+                        # The "value" below is actually an increment (normalized using the actual elapsed time, which
+                        # is not constant for calendar units), see below at  value = last_values[data_label] + value
+                        value = left_component * (series[i].t - series[i-1].t)
+                        prev_right_components[data_label] = left_component
 
                 # Sum to previous or apply offset if any
                 try:
@@ -484,9 +463,9 @@ class Integral(Operation):
                         data.append(value)
                 else:
                     if data_is_keyvalue:
-                        item.data['{}_{}'.format(data_label, postfix)] = value
+                        inplace_values.append((item, '{}_{}'.format(data_label, postfix), value))
                     else:
-                        item.data[int(data_label)] = value
+                        inplace_values.append((item, int(data_label), value))
 
 
                 last_values[data_label] = value
@@ -507,6 +486,9 @@ class Integral(Operation):
                 else:
                     raise NotImplementedError('Working on series other than slots or points not yet implemented')
 
+        for item, data_label, value in inplace_values:
+            item.data[data_label] = value
+
         if not inplace:
             return int_series
 
-- 
2.43.0


From 83cb6c232c5b50637a79634795f65e2a88053eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 16/86] fix: refuse to normalize constant values and moving
 average window check

---
 timeseria/operations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index aedf9d2..c5ee037 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -543,6 +543,10 @@ class Normalize(Operation):
                         if item._data_by_label(data_label) > maxs[data_label]:
                             maxs[data_label] = item._data_by_label(data_label)
 
+        for data_label in data_labels:
+            if mins[data_label] == maxs[data_label]:
+                raise ValueError('Cannot normalize with respect to an empty range (for data label "{}")'.format(data_label))
+
         try:
             # Try to access by label, if data was non key-value this raise, as labels
             # are always generated as strings even for in-based indexed data (as lists)
@@ -733,7 +737,7 @@ class MAvg(Operation):
         _check_indexed_data(series)
 
         if not window or window <1:
-            raise ValueError('A integer window >0 is required (got window="{}"'.frmat(window))
+            raise ValueError('A integer window >0 is required (got window="{}")'.format(window))
 
         if inplace:
             raise NotImplementedError('Computing a moving average in-place is not supported as it would change the series length')
-- 
2.43.0


From f48c62d42a8cb8757ffe80bba28790b8e8a35ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 17/86] fix: refuse to merge points with slots and non
 key-value data

---
 timeseria/operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index c5ee037..210522c 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -990,6 +990,10 @@ class Merge(Operation):
 
         # Checks
         for i, series in enumerate(seriess):
+            if isinstance(series[0], Slot) != isinstance(seriess[0][0], Slot):
+                raise TypeError('Cannot merge series of points with series of slots')
+            if not isinstance(series[0].data, dict):
+                raise TypeError('Cannot merge on non key-value data (Got "{}")'.format(series[0].data.__class__.__name__))
             if series.resolution == 'variable':
                 raise ValueError('Cannot merge variable resolution series')
             if resolution is None:
-- 
2.43.0


From 260488971e484cc00490f6a630494089b8481c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 18/86] fix: do not alter the source series when resampling and
 aggregating

---
 timeseria/transformations.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 44b9c9c..a072e22 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -2,6 +2,7 @@
 """Series transformations as resampling and aggregation."""
 
 from propertime.utils import dt_from_s, s_from_dt, as_tz
+from copy import copy
 from datetime import datetime
 from .datastructures import Point, Slot, DataTimeSlot, TimePoint, DataTimePoint, TimeSeries, TimeSeriesView
 from .utilities import _compute_data_loss, _compute_validity_regions
@@ -246,8 +247,8 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
                 new_point_data = {data_label:0 for data_label in data_labels}
                 for point in series_dense_view_extended:
                     for data_label in data_labels:
-                        point.data[data_label] += point.data[data_label] * point.weight
-                new_point_t = (to_t - from_t) /2
+                        new_point_data[data_label] += point._data_by_label(data_label) * point.weight
+                new_point_t = from_t + ((to_t - from_t) /2)
                 series_dense_view = TimeSeries(DataTimePoint(t=new_point_t, data=new_point_data, tz=series.tz))
 
         else:
@@ -403,6 +404,12 @@ class Transformation(object):
         if target not in ['points', 'slots']:
             raise ValueError('Don\'t know how to target "{}"'.format(target))
 
+        # Work on a copy of the points, as they will be extended with validity regions and weights
+        working_series = TimeSeries(tz=series.tz)
+        for point in series:
+            working_series.append(copy(point))
+        series = working_series
+
         # Log
         logger.debug('Computing from/to with include_extremes= %s', include_extremes)
 
-- 
2.43.0


From 1801e19a926cab94bd2720411724513dc3029d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 19/86] fix: respect the start and the end of the
 transformations, also if zero or on other time zones

---
 timeseria/transformations.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index a072e22..2acc1b4 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -274,7 +274,7 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
     #  Compute slot data
     elif target=='slot':
 
-        if data_loss == 1 and fill_with:
+        if data_loss == 1 and fill_with is not None:
             for data_label in data_labels:
                 for operation in operations:
                     data['{}_{}'.format(data_label, operation.__name__)] = fill_with
@@ -437,11 +437,11 @@ class Transformation(object):
                     raise ValueError('Cannot use "{}" as end value, not a datetime nor an epoch timestamp'.format(end))
 
         # Set "from". TODO: check against shifted rounding if points?
-        if from_t:
-            from_dt = dt_from_s(from_t)
+        if from_t is not None:
+            from_dt = dt_from_s(from_t, tz=series.tz)
             if from_dt != self.time_unit.round(from_dt):
                 raise ValueError('The provided from_t is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, from_t))
-        elif from_dt:
+        elif from_dt is not None:
             from_t = s_from_dt(from_dt)
             if from_dt != self.time_unit.round(from_dt):
                 raise ValueError('The provided from_dt is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, from_dt))
@@ -468,11 +468,11 @@ class Transformation(object):
                 raise ValueError('Don\'t know how to target "{}"'.format(target))
 
         # Set "to". TODO: check against shifted rounding if points?
-        if to_t:
-            to_dt = dt_from_s(to_t)
+        if to_t is not None:
+            to_dt = dt_from_s(to_t, tz=series.tz)
             if to_dt != self.time_unit.round(to_dt):
                 raise ValueError('The provided to_t is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, to_t))
-        elif to_dt:
+        elif to_dt is not None:
             to_t = s_from_dt(to_dt)
             if to_dt != self.time_unit.round(to_dt):
                 raise ValueError('The provided to_dt is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, to_dt))
@@ -590,6 +590,10 @@ class Transformation(object):
                 while slot_end_t <= point.t:
                     logger.debug('Checking for end %s with point %s', slot_end_t, point.t)
 
+                    # Do not go beyond the end, if there are gaps across it
+                    if slot_start_t is not None and slot_start_t >= to_t:
+                        break
+
                     if slot_start_t is None:
                         # If we are in the pre-first slot, just silently spin a new slot
                         pass
-- 
2.43.0


From e8e730169de57acc4b82e9d0d816cfb9551a61bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:53 +0000
Subject: [PATCH 20/86] fix: interpolate also non key-value data and never
 outside the series

---
 timeseria/interpolators.py | 40 +++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/timeseria/interpolators.py b/timeseria/interpolators.py
index 6e147f8..274c582 100644
--- a/timeseria/interpolators.py
+++ b/timeseria/interpolators.py
@@ -37,7 +37,7 @@ class LinearInterpolator(Interpolator):
                     next_i = i
                     break
 
-            if next_i is None:
+            if next_i is None or prev_i < 0:
                 raise ValueError('Trying to interpolate a point outside the series: prev_i="{}", next_i="{}", at="{}", series="{}"'.format(prev_i, next_i, at, self.series))
 
         else:
@@ -61,21 +61,17 @@ class LinearInterpolator(Interpolator):
 
         for label in self.series.data_labels():
 
-            if False:
-                # TODO: check the math here, this should be a better approach but tests fail...
-                coordinate_increment = at - prev_point.t
-                value_diff = next_point.data[label] - prev_point.data[label]
-                interpolated_data[label] = prev_point.data[label] + (value_diff * coordinate_increment)
+            # Compute the "growth" ratio
+            diff = next_point._data_by_label(label) - prev_point._data_by_label(label)
+            delta_t = next_point.t - prev_point.t
+            ratio = diff / delta_t
 
+            # Compute the value of the data for the new point
+            value = prev_point._data_by_label(label) + ((at-prev_point.t)*ratio)
+            if isinstance(interpolated_data, list):
+                interpolated_data.append(value)
             else:
-                # Compute the "growth" ratio
-                diff = next_point.data[label] - prev_point.data[label]
-                delta_t = next_point.t - prev_point.t
-                ratio = diff / delta_t
-
-                # Compute the value of the data for the new point
-                interpolated_data[label] = prev_point.data[label] + ((at-prev_point.t)*ratio)
-
+                interpolated_data[label] = value
 
         return interpolated_data
 
@@ -89,12 +85,12 @@ class UniformInterpolator(Interpolator):
 
     def evaluate(self, at, prev_i=None, next_i=None):
 
-        if prev_i and next_i is None:
+        if prev_i is not None and next_i is None:
             raise ValueError('If you provide the prev_i you also need to provide the next_i')
-        if next_i and prev_i is None:
+        if next_i is not None and prev_i is None:
             raise ValueError('If you provide the next_i you also need to provide the prev_i')
 
-        if not prev_i:
+        if prev_i is None and next_i is None:
             logger.warning('You are not providing the prev_i and next_i, this will cause the interpolator to look for them and likely introduce a slow down')
 
             # Search for the prev_i:
@@ -102,9 +98,9 @@ class UniformInterpolator(Interpolator):
                 if item.t > at:
                     prev_i = i-1
                     next_i = i
-                break
+                    break
 
-            if next_i is None:
+            if next_i is None or prev_i < 0:
                 raise ValueError('Trying to interpolate a point outside the series')
 
         else:
@@ -119,7 +115,11 @@ class UniformInterpolator(Interpolator):
         interpolated_data = self.series[0].data.__class__()
 
         for label in self.series.data_labels():
-            interpolated_data[label] = prev_point.data[label] + ((next_point.data[label] - prev_point.data[label]) /2)
+            value = prev_point._data_by_label(label) + ((next_point._data_by_label(label) - prev_point._data_by_label(label)) /2)
+            if isinstance(interpolated_data, list):
+                interpolated_data.append(value)
+            else:
+                interpolated_data[label] = value
 
         return interpolated_data
 
-- 
2.43.0


From 4bd4f6578c793ccaaa6916754bedf7ce053437d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:53 +0000
Subject: [PATCH 21/86] fix: do not lose the first resampled point if its
 interval starts exactly with the series

---
 timeseria/transformations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 2acc1b4..2f501ca 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -449,7 +449,8 @@ class Transformation(object):
             if target == 'points':
                 from_t = series[0].t  - (self.time_unit.as_seconds() /2)
                 from_dt = dt_from_s(from_t, tz=series.tz)
-                from_dt = self.time_unit.round(from_dt, how='floor' if include_extremes else 'ceil')
+                if from_dt != self.time_unit.round(from_dt):
+                    from_dt = self.time_unit.round(from_dt, how='floor' if include_extremes else 'ceil')
                 from_t = s_from_dt(from_dt) + (self.time_unit.as_seconds() /2)
                 from_dt = dt_from_s(from_t)
 
-- 
2.43.0


From ce71774713c1fc45ffbe3db1f24bde4ac62f10fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:53 +0000
Subject: [PATCH 22/86] fix: compute data losses from the actual validity
 regions of the points

---
 timeseria/utilities.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 82760e6..1c8fc84 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -757,9 +757,13 @@ def _compute_data_loss(series, from_t, to_t, force=False, sampling_interval=None
 
             if point.data_loss:
 
-                # Set validity
-                point_valid_from_t = point.t - (sampling_interval/2)
-                point_valid_to_t = point.t + (sampling_interval/2)
+                # Set validity, using the actual validity region of the point if any
+                try:
+                    point_valid_from_t = point.valid_from
+                    point_valid_to_t = point.valid_to
+                except AttributeError:
+                    point_valid_from_t = point.t - (sampling_interval/2)
+                    point_valid_to_t = point.t + (sampling_interval/2)
 
                 # Skip points which have not to be taken into account
                 if point_valid_to_t < from_t:
@@ -767,14 +771,9 @@ def _compute_data_loss(series, from_t, to_t, force=False, sampling_interval=None
                 if point_valid_from_t >= to_t:
                     continue
 
-                # Compute the contribution of this point data loss: overlapping
-                # first point, overlapping last point, or all included?
-                if point_valid_from_t < from_t:
-                    point_contribution = abs(from_t - point_valid_to_t)
-                elif point_valid_to_t >= to_t:
-                    point_contribution = abs(to_t - point_valid_from_t)
-                else:
-                    point_contribution = sampling_interval
+                # Compute the contribution of this point data loss, as the
+                # part of its validity region falling in the interval
+                point_contribution = min(point_valid_to_t, to_t) - max(point_valid_from_t, from_t)
 
                 #logger.debug('----------------')
                 #count+=1
-- 
2.43.0


From 2d7843009a05904e171844f1137afa808c754011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 23/86] fix: aggregate by months series starting in the last
 days of a month

---
 timeseria/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 2f501ca..8023ee9 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -507,7 +507,7 @@ class Transformation(object):
             logger.info('Using auto-detected sampling interval: %ss', validity)
 
         # Check if upsamplimg (with some tolearance):
-        if validity > (self.time_unit.as_seconds(series[0].dt) * 1.10):
+        if validity > (self.time_unit.as_seconds(dt_from_s(from_t, tz=series.tz)) * 1.10):
             logger.warning('You are upsampling, which is not well tested yet. Expect potential issues.')
 
         # Compute validity regions
-- 
2.43.0


From 14d6dfaae6465c7329e599a495195bba4e14b1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:56 +0000
Subject: [PATCH 24/86] fix: aggregate on slots with no points also if covered
 by lost data

---
 timeseria/transformations.py | 35 +++++++++--------------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 8023ee9..5f0e4f8 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -8,7 +8,6 @@ from .datastructures import Point, Slot, DataTimeSlot, TimePoint, DataTimePoint,
 from .utilities import _compute_data_loss, _compute_validity_regions
 from .operations import avg
 from .units import TimeUnit
-from .exceptions import ConsistencyException
 from . import operations as operations_module
 from .interpolators import LinearInterpolator
 
@@ -225,31 +224,15 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
     if target == 'slot':
 
         if slot_first_point_i is None and slot_last_point_i is None:
-            # If we have no datapoints at all in the slot, we must create one to let operations not
-            # supporting weights to properly work. If we have a full data loss, this can be just the
-            # middle point from the series_dense_view_extended. Otherwise, we must compute it from
-            # scratch as we are upsamping with no data loss but still no points belonging to the slot.
-
-            if data_loss==1:
-                series_dense_view = None
-                for point in series_dense_view_extended:
-                    try:
-                        if point._interpolated:
-                            if series_dense_view:
-                                raise ConsistencyException('Found more than one reconstructed point in a fully missing slot')
-                            series_dense_view = series.__class__(point)
-                    except AttributeError:
-                        pass
-                if not series_dense_view:
-                    raise ConsistencyException('Could not find any reconstructed point in a fully missing slot')
-            else:
-                # Just create a point based on the series_dense_view_extended weights (TODO: are we including the interpolated?):
-                new_point_data = {data_label:0 for data_label in data_labels}
-                for point in series_dense_view_extended:
-                    for data_label in data_labels:
-                        new_point_data[data_label] += point._data_by_label(data_label) * point.weight
-                new_point_t = from_t + ((to_t - from_t) /2)
-                series_dense_view = TimeSeries(DataTimePoint(t=new_point_t, data=new_point_data, tz=series.tz))
+            # If we have no datapoints at all in the slot, we must create one to let operations not supporting weights
+            # to properly work, based on the series_dense_view_extended weights. If the slot is entirely in a gap this is
+            # just the interpolated point, otherwise we are upsampling and the slot is covered by the points around it.
+            new_point_data = {data_label:0 for data_label in data_labels}
+            for point in series_dense_view_extended:
+                for data_label in data_labels:
+                    new_point_data[data_label] += point._data_by_label(data_label) * point.weight
+            new_point_t = from_t + ((to_t - from_t) /2)
+            series_dense_view = TimeSeries(DataTimePoint(t=new_point_t, data=new_point_data, tz=series.tz))
 
         else:
             # Create a view of the original series to provide only the datapoints belonging to the slot
-- 
2.43.0


From c6ed439a7b2a0c8f1defc8b354d2e7d65ef894e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 25/86] fix: keep columns, encoding, indexes and missing slots
 right when reading CSV files

---
 timeseria/storages.py | 52 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 6e8f4fa..85c434a 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -204,9 +204,17 @@ class CSVFileStorage(Storage):
         # Data type
         data_type = None
 
-        # Detect encoding if not set
-        if not self.encoding:
-            self.encoding = detect_encoding(self.filename, streaming=False)
+        # Detect encoding if not set. UTF-8 (with or without the BOM) can be
+        # told for sure, otherwise go for the heuristic approach.
+        encoding = self.encoding
+        if not encoding:
+            try:
+                with open(self.filename, 'r', encoding='utf-8-sig') as csv_file:
+                    for _ in csv_file:
+                        pass
+                encoding = 'utf-8-sig'
+            except UnicodeDecodeError:
+                encoding = detect_encoding(self.filename, streaming=False)
 
         # Set and timezonize the timezone. Using this in the points or slots will be just a pointer
         if force_tz:
@@ -217,7 +225,7 @@ class CSVFileStorage(Storage):
         # Loop over all CSV rows
         # TODO: evaluate rU vs newline='\n'
         items = []
-        with open(self.filename, 'r', encoding=self.encoding) as csv_file:
+        with open(self.filename, 'r', encoding=encoding) as csv_file:
 
             while True:
 
@@ -263,7 +271,8 @@ class CSVFileStorage(Storage):
                     # If it is, use it as labels (and continue with the next line)
                     if not_converted: # == len(line_items):
                         column_indexes = [i for i in range(len(line_items)) if _sanitize_string(line_items[i],NO_DATA_PLACEHOLDERS)]
-                        column_labels = [_sanitize_string(label,NO_DATA_PLACEHOLDERS) for label in line_items if _sanitize_string(label,NO_DATA_PLACEHOLDERS)]
+                        # Keep also the empty labels, in order to have the labels always aligned with their columns
+                        column_labels = [_sanitize_string(label,NO_DATA_PLACEHOLDERS) for label in line_items]
                         logger.debug('Set column indexes = "%s"  and column labels = "%s"', column_indexes, column_labels)
                         continue
 
@@ -338,6 +347,14 @@ class CSVFileStorage(Storage):
                 if timestamp_column_index is None and time_column_index is None and date_column_index is None:
                     raise ConsistencyException('Could not set timestamp_column_index nor time_column_index nor date_column_index, somehting wrong happened.')
 
+                # Check that there are all of the time columns
+                if max(index for index in (timestamp_column_index, time_column_index, date_column_index) if index is not None) >= len(line_items):
+                    if self.skip_errors:
+                        logger.debug('Cannot parse line #%s as its timestamp is missing, skipping the line.', line_number)
+                        continue
+                    else:
+                        raise Exception('Cannot parse line #{} as its timestamp is missing, aborting. Set "skip_errors=True" to drop them instead.'.format(line_number))
+
                 # Ok,now get the timestamp as string
                 if timestamp_column_index is not None:
                     # Just use the Timestamp column
@@ -449,7 +466,7 @@ class CSVFileStorage(Storage):
                         if _is_list_of_integers(data_labels):
                             # Case where we have been given a list of integers
                             data_label_indexes = data_labels
-                            self.data_type = list
+                            data_type = list
 
                         else:
                             # Case where we have been given a list of labels
@@ -466,7 +483,7 @@ class CSVFileStorage(Storage):
                         # Case where we have to automatically set data column indexes to include all data columns
 
                         # Initialize the data_label_indexes equal to the column_indexes
-                        data_label_indexes = column_indexes
+                        data_label_indexes = list(column_indexes)
 
                         # Remove timestamp, time and date indexes from the data_label_indexes
                         if timestamp_column_index is not None:
@@ -582,12 +599,12 @@ class CSVFileStorage(Storage):
             detected_sampling_interval = detect_sampling_interval(sample_timepointseries)
 
             # Years
-            if detected_sampling_interval in [86400*365, 886400*366]:
+            if detected_sampling_interval in [86400*365, 86400*366]:
                 detected_series_type = DataTimeSlot
                 auto_slot_unit = TimeUnit('1Y')
 
             # Months
-            elif detected_sampling_interval in [86400*31, 86400*30, 86400*28]:
+            elif detected_sampling_interval in [86400*31, 86400*30, 86400*29, 86400*28]:
                 detected_series_type = DataTimeSlot
                 auto_slot_unit = TimeUnit('1M')
 
@@ -624,6 +641,11 @@ class CSVFileStorage(Storage):
                         auto_slot_unit = TimeUnit('5m')
                     elif detected_sampling_interval == 60:
                         auto_slot_unit = TimeUnit('1m')
+                    elif detected_sampling_interval is None:
+                        # Only one item, the unit can only be given
+                        if not force_slot_unit:
+                            raise ValueError('Cannot detect the slot unit with only one item')
+                        auto_slot_unit = None
                     else:
                         auto_slot_unit = TimeUnit('{}s'.format(detected_sampling_interval))
 
@@ -723,9 +745,17 @@ class CSVFileStorage(Storage):
                             # We are arrived, append all the missing items and then the item we originally tried to and break
                             for j, missing_timestamp in enumerate(missing_timestamps):
                                 # Set data by interpolation
-                                interpolated_data = {data_label: (((items[i][1][data_label]-items[i-1][1][data_label])/(len(missing_timestamps)+1)) * (j+1)) + items[i-1][1][data_label]  for data_label in  items[-1][1] }
+                                def interpolate(prev_value, next_value):
+                                    return (((next_value-prev_value)/(len(missing_timestamps)+1)) * (j+1)) + prev_value
+                                prev_data = items[i-1][1]
+                                if isinstance(item[1], dict):
+                                    interpolated_data = {data_label: interpolate(prev_data[data_label], item[1][data_label]) for data_label in item[1]}
+                                elif isinstance(item[1], list):
+                                    interpolated_data = [interpolate(prev_value, next_value) for prev_value, next_value in zip(prev_data, item[1])]
+                                else:
+                                    interpolated_data = interpolate(prev_data, item[1])
                                 series.append(DataTimeSlot(t=missing_timestamp, unit=slot_unit, data=interpolated_data, data_loss=1, tz=tz))
-                            series.append(DataTimeSlot(t=item[0], unit=slot_unit, data=item[1], data_loss=DEFAULT_SLOT_DATA_LOSS, tz=tz))
+                            series.append(DataTimeSlot(t=item[0], unit=slot_unit, data=item[1], data_indexes=data_indexes, tz=tz))
                             break
 
                         else:
-- 
2.43.0


From f82fcdd47080f6c3a49d3ba77a131c5f1d152f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 26/86] fix: never truncate a CSV file or store what cannot be
 read back when writing it

---
 timeseria/storages.py | 59 +++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 85c434a..d675542 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -3,6 +3,7 @@
 
 import os
 import pytz
+import numpy
 import datetime
 from .utilities import detect_encoding, _sanitize_string, _is_list_of_integers, _to_float
 from .units import TimeUnit
@@ -778,45 +779,43 @@ class CSVFileStorage(Storage):
         if os.path.isfile(self.filename) and not overwrite:
             raise Exception('File already exists. use overwrite=True to overwrite.')
 
+        # Check the type, before opening (and truncating) the file
+        if not series:
+            raise ValueError('Cannot store an empty time series')
+        if issubclass(series.item_type, DataTimePoint):
+            series_type = 'points'
+        elif issubclass(series.item_type, DataTimeSlot):
+            series_type = 'slots'
+        else:
+            raise TypeError('Can store only time series of DataTimePoints or DataTimeSlots')
+
         # Set data_indexes here once for all or there will be a slowdown afterwards
         data_indexes = series._all_data_indexes()
+        data_labels = series.data_labels()
 
-        with open(self.filename, 'w') as csv_file:
-
-            # 0) Dump CSV-storage specific metadata & chck type
-            if issubclass(series.item_type, DataTimePoint):
-                csv_file.write('# Generated by Timeseria CSVFileStorage at {}\n'.format(now_dt()))
-                csv_file.write('# {}\n'.format(series))
-                csv_file.write('# Extra parameters: {{"type": "points", "tz": "{}", "resolution": "{}"}}\n'.format(series.tz, series.resolution))
+        # Check that the labels can be written (and then read back) as they are
+        for label in [str(data_label) for data_label in data_labels] + data_indexes:
+            if self.separator in label or label.startswith('__') or _sanitize_string(label, NO_DATA_PLACEHOLDERS) != label or not label:
+                raise ValueError('Cannot store the label "{}" in a CSV file'.format(label))
 
-            elif issubclass(series.item_type, DataTimeSlot):
-                csv_file.write('# Generated by Timeseria CSVFileStorage at {}\n'.format(now_dt()))
-                csv_file.write('# {}\n'.format(series))
-                csv_file.write('# Extra parameters: {{"type": "slots", "tz": "{}", "resolution": "{}"}}\n'.format(series.tz, series.resolution))
+        with open(self.filename, 'w', encoding=self.encoding if self.encoding else 'utf-8') as csv_file:
 
-            else:
-                raise TypeError('Can store only time series of DataTimePoints or DataTimeSlots')
+            # 0) Dump CSV-storage specific metadata
+            csv_file.write('# Generated by Timeseria CSVFileStorage at {}\n'.format(now_dt()))
+            csv_file.write('# {}\n'.format(series))
+            csv_file.write('# Extra parameters: {{"type": "{}", "tz": "{}", "resolution": "{}"}}\n'.format(series_type, series.tz, series.resolution))
 
             # 1) Dump headers
-            data_labels_part = ','.join([str(data_label) for data_label in series.data_labels()])
-            data_indexes_part = ','.join(['__'+index for index in data_indexes])
-            if data_indexes_part:
-                csv_file.write('epoch,{},{}\n'.format(data_labels_part,data_indexes_part))
-            else:
-                csv_file.write('epoch,{}\n'.format(data_labels_part))
+            csv_file.write('{}\n'.format(self.separator.join(['epoch'] + [str(data_label) for data_label in data_labels] + ['__'+index for index in data_indexes])))
 
             # 2) Dump data (and data_indexes)
             for item in series:
                 if isinstance (series[0].data, list) or isinstance (series[0].data, tuple):
-                    data_part = ','.join([str(item.data[int(data_label)]) for data_label in series.data_labels()])
-                else:
-                    data_part = ','.join([str(item.data[data_label]) for data_label in series.data_labels()])
-                data_indexes_part = ','.join([str(item.data_indexes[index]) for index in data_indexes])
-                if data_indexes_part:
-                    csv_file.write('{},{},{}\n'.format(item.t, data_part, data_indexes_part))
+                    data_values = [item.data[int(data_label)] for data_label in data_labels]
                 else:
-                    csv_file.write('{},{}\n'.format(item.t, data_part))
-
-
-
-
+                    data_values = [item.data[data_label] for data_label in data_labels]
+                # Not all of the items may have all of the indexes
+                data_indexes_values = [item.data_indexes.get(index) for index in data_indexes]
+                # Booleans are stored as the numbers they stand for
+                values = [int(value) if isinstance(value, (bool, numpy.bool_)) else value for value in [item.t] + data_values + data_indexes_values]
+                csv_file.write('{}\n'.format(self.separator.join([str(value) for value in values])))
-- 
2.43.0


From 2e8adf4e1a104616af82d68a01b3e880db64adaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 27/86] fix: load series with labels as timestamp or non-ASCII,
 and of subclasses

---
 timeseria/datastructures.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 31253f8..8fc7405 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1578,7 +1578,7 @@ class TimeSeries(Series):
         """Load a series from a (CSV) file, in Timeseria format."""
 
         metadata = None
-        with open(file_name) as f:
+        with open(file_name, encoding='utf-8', errors='replace') as f:
             for line in f:
                 if line.startswith('#'):
                     if line.startswith('# Extra parameters:'):
@@ -1597,7 +1597,7 @@ class TimeSeries(Series):
             force_slot_unit = None
 
         from .storages import CSVFileStorage
-        storage = CSVFileStorage(file_name)
+        storage = CSVFileStorage(file_name, timestamp_column=0, timestamp_format='epoch')
         loaded_series = storage.get(force_points=force_points, force_slots=force_slots, force_tz=force_tz, force_slot_unit=force_slot_unit)
 
         if loaded_series.__class__ == cls:
@@ -1605,7 +1605,7 @@ class TimeSeries(Series):
         else:
             # TODO: the following is a huge performance hit...
             series_items = loaded_series.contents()
-            cls(*series_items)
+            return cls(*series_items)
 
 
     def save(self, file_name, overwrite=False, **kwargs):
@@ -1697,7 +1697,7 @@ class TimeSeries(Series):
         else:
             # TODO: the following is a huge performance hit...
             series_items = loaded_series.contents()
-            cls(*series_items)
+            return cls(*series_items)
 
     def to_csv(self, file_name, overwrite=False, **kwargs):
         """Store the time series as a CSV file."""
-- 
2.43.0


From 985684659770e60af3df243e669d749e4611de1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 28/86] fix: data losses, list data and yearly frequencies when
 converting from and to data frames

---
 timeseria/datastructures.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 8fc7405..07920bf 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -3,7 +3,7 @@
 
 import json
 from copy import copy, deepcopy
-from pandas import DataFrame
+from pandas import DataFrame, isna
 from datetime import datetime
 from pytz import UTC
 from propertime import Time
@@ -1723,11 +1723,14 @@ class TimeSeries(Series):
 
         else:
 
+            # Remove the anchor, if any (as for AS-JAN)
+            unit_str_pd=unit_str_pd.split('-')[0]
+
             # Calendar
-            unit_str_pd=unit_str_pd.replace('A', 'Y')    # Year (end) ?
-            unit_str_pd=unit_str_pd.replace('Y', 'Y')    # Year (end) )
             unit_str_pd=unit_str_pd.replace('AS', 'Y')   # Year (start)
             unit_str_pd=unit_str_pd.replace('YS', 'Y')   # Year (start)
+            unit_str_pd=unit_str_pd.replace('A', 'Y')    # Year (end) ?
+            unit_str_pd=unit_str_pd.replace('Y', 'Y')    # Year (end) )
             unit_str_pd=unit_str_pd.replace('MS', 'M')   # Month (start)
             unit_str_pd=unit_str_pd.replace('M', 'M')    # Month (end)
             unit_str_pd=unit_str_pd.replace('D', 'D')    # Day
@@ -1778,8 +1781,14 @@ class TimeSeries(Series):
 
                 # Prepare data
                 data = {}
+                data_indexes = None
                 for i,label in enumerate(labels):
-                    data[label] = row[1][i]
+                    if label == 'data_loss':
+                        # As set by the to_df() method, where a missing value stands for no data loss set
+                        if not isna(row[1][i]):
+                            data_indexes = {'data_loss': row[1][i]}
+                    else:
+                        data[label] = row[1][i]
 
                 if dt.tzinfo is None:
                     if not naive_warned:
@@ -1787,7 +1796,7 @@ class TimeSeries(Series):
                         naive_warned = True
                     dt = UTC.localize(dt)
 
-                datatimeslots.append(DataTimeSlot(dt=dt, unit=unit, data=data))
+                datatimeslots.append(DataTimeSlot(dt=dt, unit=unit, data=data, data_indexes=data_indexes))
 
             # Set the list of data time points
             return cls(*datatimeslots)
@@ -1809,8 +1818,14 @@ class TimeSeries(Series):
 
                 # Prepare data
                 data = {}
+                data_indexes = None
                 for i,label in enumerate(labels):
-                    data[label] = row[1][i]
+                    if label == 'data_loss':
+                        # As set by the to_df() method, where a missing value stands for no data loss set
+                        if not isna(row[1][i]):
+                            data_indexes = {'data_loss': row[1][i]}
+                    else:
+                        data[label] = row[1][i]
 
                 if dt.tzinfo is None:
                     if not naive_warned:
@@ -1818,7 +1833,7 @@ class TimeSeries(Series):
                         naive_warned = True
                     dt = UTC.localize(dt)
 
-                datatimepoints.append(DataTimePoint(dt=dt, data=data))
+                datatimepoints.append(DataTimePoint(dt=dt, data=data, data_indexes=data_indexes))
 
             # Set the list of data time points
             return cls(*datatimepoints)
@@ -1840,7 +1855,7 @@ class TimeSeries(Series):
 
         df = DataFrame(columns=columns)
         for item in self:
-            values = [item.data[data_label] for data_label in data_labels]
+            values = [item._data_by_label(data_label) for data_label in data_labels]
             if dump_data_loss:
                 df = df.append(DataFrame([[item.dt]+values+[item.data_loss]], columns=columns))
             else:
-- 
2.43.0


From da971e0778501c15aaae73b91209cd777183c38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 29/86] fix: mark events ending the series and with items not
 scored

---
 timeseria/models/anomaly_detectors.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index c3ad201..864e9e4 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -58,26 +58,34 @@ class AnomalyDetector(Model):
             replace_index(bool): if to replace the existent ``anomaly`` index instead of adding a new ``anomaly_event`` one.
         """
 
+        if len(timeseries) and not any('anomaly' in item.data_indexes for item in timeseries):
+            raise ValueError('No anomaly index found in the series, has an anomaly detector been applied to it?')
+
         if inplace:
             event_timeseries = timeseries
         else:
             event_timeseries = timeseries.duplicate()
         event_start = None
 
+        # Items with no anomaly index (i.e. because of the data losses) are not anomalous
+        def is_anomalous(item):
+            anomaly_index = item.data_indexes.get('anomaly')
+            return anomaly_index is not None and anomaly_index >= index_treshold
+
         for i, item in enumerate(event_timeseries):
 
             # Set no event by default
             item.data_indexes['anomaly_event'] = 0
 
             # Detect new (potential) event start
-            if item.data_indexes['anomaly'] >= index_treshold:
+            if is_anomalous(item):
                 if event_start is None:
                     logger.debug('Starting to suspect event @ element #%s',i)
                     event_start = i
 
             # Detect event end
             if event_start is not None:
-                if item.data_indexes['anomaly'] < index_treshold:
+                if not is_anomalous(item):
                     logger.debug('Evaluating element #%s to trigger an event end', i)
 
                     # Are we still within the max gap? If so, don't close the (potential) event yet
@@ -86,7 +94,7 @@ class AnomalyDetector(Model):
                     event_ended = True
                     logger.debug('  checking elements from #%s to #%s', from_i, to_i)
                     for j in range(from_i, to_i+1):
-                        if event_timeseries[j].data_indexes['anomaly'] >= index_treshold:
+                        if is_anomalous(event_timeseries[j]):
                             event_ended = False
                     if event_ended:
                         logger.debug('  event was ended @ element #%s', i - max_gap - 1)
@@ -106,14 +114,14 @@ class AnomalyDetector(Model):
         # Handle series last event, if any
         if event_start is not None:
 
-            # When was the last event over?
-            event_end = len(event_timeseries)
+            # When was the last event over? At worst, it is made only of its first element
+            event_end = event_start
             for i in range(len(event_timeseries)-1, event_start, -1):
-                if  event_timeseries[i].data_indexes['anomaly'] >= index_treshold:
+                if is_anomalous(event_timeseries[i]):
                     event_end = i
                     break
             logger.debug('  event was ended @ element #%s', event_end)
-            event_persistence =  event_end - event_start
+            event_persistence =  event_end - event_start + 1
             if event_persistence < min_persistence:
                 logger.debug('  discarding as below minimum persistence')
             else:
-- 
2.43.0


From a6ed91cd2de44b7f3ce4ab9c3b8233e2436f56aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 30/86] fix: do not leave a series half reconstructed when an
 in-place reconstruction fails

---
 timeseria/models/reconstructors.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index fb324e6..03ad0f8 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -46,8 +46,9 @@ class Reconstructor(Model):
 
         logger.debug('Using data_loss_threshold="%s"', data_loss_threshold)
 
-        if not inplace:
-            series = series.duplicate()
+        # Always work on a copy, so that if something fails an in-place reconstruction does not leave the series half-way
+        original_series = series
+        series = series.duplicate()
 
         gap_start_i = None
 
@@ -79,6 +80,9 @@ class Reconstructor(Model):
         if not inplace:
             return series
         else:
+            for original_item, item in zip(original_series, series):
+                original_item._data = item.data
+                original_item.data_indexes = item.data_indexes
             return None
 
     def _reconstruct(self, series, from_i, to_i, inplace=False):
-- 
2.43.0


From ebeb5f0ee57932f6c8a900ca47d59ad7754aae68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 31/86] fix: evaluate reconstructors predicting lists of
 dictionaries

---
 timeseria/models/reconstructors.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index 03ad0f8..0c8c619 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -246,7 +246,12 @@ class Reconstructor(Model):
                         real_values.append(series[j].data[data_label])
 
                     # Add predicted and real values to the overall data to be later used for the RMS etc.
-                    overall_predicted_values += predicted_values[data_label]
+                    if isinstance(predicted_values, list):
+                        # List of dicts
+                        overall_predicted_values += [predicted_value[data_label] for predicted_value in predicted_values]
+                    else:
+                        # Dict of lists
+                        overall_predicted_values += predicted_values[data_label]
                     overall_actual_values += real_values
                     processed_samples+=1
 
-- 
2.43.0


From cfc3ddd98cf9683f5fa21dc60d73be0b4103a921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 32/86] fix: load periodic average reconstructors with their
 averages

---
 timeseria/models/reconstructors.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index 0c8c619..550d087 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -377,6 +377,13 @@ class PeriodicAverageReconstructor(Reconstructor):
 
     window = 1
 
+    @classmethod
+    def load(cls, path):
+        model = super().load(path)
+        # Convert the average dict keys back to integers
+        model.data['averages'] = {int(key):value for key, value in model.data['averages'].items()}
+        return model
+
     @Reconstructor.fit_function
     def fit(self, series, periodicity='auto', dst_affected=False, offset_method='average', data_loss_limit=1.0, verbose=False):
         # TODO: periodicity, dst_affected, offset_method -> move them in the init?
-- 
2.43.0


From abc6163f92d6a0153ff98aa9eb7608647b80ea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 33/86] fix: use the time zone of the series when predicting
 with the Prophet reconstructor as in the fit

---
 timeseria/models/reconstructors.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index 550d087..16f8f55 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -5,7 +5,6 @@ import copy
 from sklearn.metrics import mean_absolute_error, mean_squared_error
 from pandas import DataFrame
 from math import sqrt
-from propertime.utils import dt_from_s
 
 from ..utilities import detect_periodicity, _get_periodicity_index, mean_absolute_percentage_error
 from ..units import TimeUnit
@@ -541,7 +540,7 @@ class ProphetReconstructor(Reconstructor, _ProphetModel):
         items_to_reconstruct = []
         for j in range(from_i, to_i+1):
             items_to_reconstruct.append(series[j])
-        data_to_reconstruct = [self._remove_timezone(dt_from_s(item.t)) for item in items_to_reconstruct]
+        data_to_reconstruct = [self._remove_timezone(item.dt) for item in items_to_reconstruct]
         dataframe_to_reconstruct = DataFrame(data_to_reconstruct, columns = ['ds'])
 
         # Apply Prophet fit
-- 
2.43.0


From 8da9a4dadf6cc84189397392b8415e3d85e87eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 34/86] fix: count the periods on the calendar, before the
 epoch and with sub-second resolutions

---
 timeseria/utilities.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 1c8fc84..86bd560 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -5,7 +5,7 @@ import re
 import random
 import numpy
 import chardet
-from math import log
+from math import log, floor
 from chardet.universaldetector import UniversalDetector
 from numpy import fft
 from scipy.signal import find_peaks
@@ -868,6 +868,16 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
     from .units import Unit, TimeUnit
     # Handle specific cases
     if isinstance(resolution, TimeUnit):
+
+        # For calendar units, which have a variable length, count on the calendar
+        months = resolution.years*12 + resolution.months
+        days = resolution.weeks*7 + resolution.days
+        if (months or days) and not (resolution.hours or resolution.minutes or resolution.seconds):
+            if months and not days:
+                return (((item.dt.year-1970)*12 + item.dt.month-1) // months) % periodicity
+            if days and not months:
+                return ((item.dt.toordinal() - 719163) // days) % periodicity
+
         resolution_s = resolution.as_seconds(item.dt)
     elif isinstance(resolution, Unit):
         if isinstance(resolution, list):
@@ -878,11 +888,15 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
             raise NotImplementedError('Sorry, periodocity in multi-dimensional spaces are not defined')
         resolution_s = resolution
 
+    # Count how many units there are since the epoch, allowing for floating point approximations
+    def count_units(seconds):
+        return floor(seconds / resolution_s + 1e-6)
+
     # Compute periodicity index
     if not dst_affected:
 
         # Get index based on item timestamp, normalized to unit, modulus periodicity
-        periodicity_index =  int(item.t / resolution_s) % periodicity
+        periodicity_index = count_units(item.t) % periodicity
 
     else:
 
@@ -893,7 +907,7 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
 
         if dst_timedelta.days == 0 and dst_timedelta.seconds == 0:
             # No DST
-            periodicity_index = int(item.t / resolution_s) % periodicity
+            periodicity_index = count_units(item.t) % periodicity
 
         else:
             # DST
@@ -907,7 +921,7 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
             dst_offset_s = dst_timedelta.seconds # 3600 usually
 
             # Compute the periodicity index
-            periodicity_index = (int((item.t + dst_offset_s) / resolution_s) % periodicity)
+            periodicity_index = count_units(item.t + dst_offset_s) % periodicity
 
     return periodicity_index
 
-- 
2.43.0


From 644a5f8c3158b5227c9b474faf6838a5afcfea6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:27 +0000
Subject: [PATCH 35/86] fix: periodic average forecasters with a given window,
 periodicities of each label and offset over the window

---
 timeseria/models/forecasters.py | 44 +++++++++++++++++----------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index bf7b721..e633a41 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -491,32 +491,34 @@ class PeriodicAverageForecaster(Forecaster):
         for data_label in series.data_labels():
             # Set or detect periodicity
             if periodicity == 'auto':
-                periodicity =  detect_periodicity(series[data_label])
-                logger.info('Detected periodicity for "%s": %sx %s', data_label, periodicity, series.resolution)
+                label_periodicity =  detect_periodicity(series[data_label])
+                logger.info('Detected periodicity for "%s": %sx %s', data_label, label_periodicity, series.resolution)
+            else:
+                label_periodicity = periodicity
 
-            self.data['periodicities'][data_label]  = periodicity
+            self.data['periodicities'][data_label]  = label_periodicity
 
             # Set window
             if self._window != 'auto':
                 self.data['windows'][data_label] = self._window
             else:
-                logger.info('Using a window of "{}" for "{}"'.format(periodicity, data_label))
-                self.data['windows'][data_label]= periodicity
-
-                sums   = {}
-                totals = {}
-                processed = 0
-                for item in series:
-                    if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
-                        continue
-                    periodicity_index = _get_periodicity_index(item, series.resolution, periodicity, dst_affected)
-                    if not periodicity_index in sums:
-                        sums[periodicity_index] = item.data[data_label]
-                        totals[periodicity_index] = 1
-                    else:
-                        sums[periodicity_index] += item.data[data_label]
-                        totals[periodicity_index] +=1
-                    processed += 1
+                logger.info('Using a window of "{}" for "{}"'.format(label_periodicity, data_label))
+                self.data['windows'][data_label]= label_periodicity
+
+            sums   = {}
+            totals = {}
+            processed = 0
+            for item in series:
+                if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
+                    continue
+                periodicity_index = _get_periodicity_index(item, series.resolution, label_periodicity, dst_affected)
+                if not periodicity_index in sums:
+                    sums[periodicity_index] = item.data[data_label]
+                    totals[periodicity_index] = 1
+                else:
+                    sums[periodicity_index] += item.data[data_label]
+                    totals[periodicity_index] +=1
+                processed += 1
 
             if not processed:
                 raise ValueError('Too much data loss (not a single element below the limit), cannot fit!')
@@ -575,7 +577,7 @@ class PeriodicAverageForecaster(Forecaster):
                     diffs += (real_value - predict_value)
 
                 # Sum the avg diff between the real and the forecast on the window to the forecast (the offset)
-                offset = diffs/j
+                offset = diffs/self.data['windows'][data_label]
 
                 # Compute the forecast data
                 periodicity_index = _get_periodicity_index(predict_timestamp,
-- 
2.43.0


From 90f7f3c5833ea19c4b4d17997dae7800963af97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:27 +0000
Subject: [PATCH 36/86] fix: forecast points with non-parametric models and do
 not leave a series half-way when an in-place forecast fails

---
 timeseria/models/forecasters.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index e633a41..8c2aefa 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -132,7 +132,7 @@ class Forecaster(Model):
                                         #tz = series.tz,
                                         data  = predicted_data)
             else:
-                forecast = DataTimePoint(t = forecast_start_item.t + self.data['resolution'],
+                forecast = DataTimePoint(t = forecast_start_item.t + series.resolution,
                                          tz = series.tz,
                                          data  = predicted_data)
 
@@ -146,8 +146,9 @@ class Forecaster(Model):
             if not context_data:
                 raise ValueError('Applying a forecaster fit to target specific data labels requires to give context data (target_data_labels={})'.format(self.data['target_data_labels']))
 
-        if not inplace:
-            series = series.duplicate()
+        # Always work on a copy, so that if something fails an in-place forecast does not leave the series half-way
+        original_series = series
+        series = series.duplicate()
 
         input_series_len = len(series)
 
@@ -194,6 +195,10 @@ class Forecaster(Model):
         if not inplace:
             return series
         else:
+            for item in series[input_series_len:]:
+                original_series.append(item)
+            for item in original_series[:input_series_len]:
+                item.data_indexes['forecast'] = 0
             return None
 
     @Model.evaluate_function
-- 
2.43.0


From 47437320af3ae6767735731994aeedb63b0065bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:50 +0000
Subject: [PATCH 37/86] fix: allow data losses set to None when fitting models

---
 timeseria/models/base.py           | 4 ++--
 timeseria/models/forecasters.py    | 2 +-
 timeseria/models/reconstructors.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index f7ef855..8ce7afc 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -579,13 +579,13 @@ class _KerasModel(Model):
                 # Add window elements
                 window_elements_vector = []
                 for j in range(window):
-                    if data_loss_limit is not None and 'data_loss' in series[i-window+j].data_indexes and series[i-window+j].data_indexes['data_loss'] >= data_loss_limit:
+                    if data_loss_limit is not None and series[i-window+j].data_loss is not None and series[i-window+j].data_loss >= data_loss_limit:
                         raise TooMuchDataLoss()
                     window_elements_vector.append(series[i-window+j])
 
                 # Add target values
                 target_values_sub_vector = []
-                if data_loss_limit is not None and 'data_loss' in series[i].data_indexes and series[i].data_indexes['data_loss'] >= data_loss_limit:
+                if data_loss_limit is not None and series[i].data_loss is not None and series[i].data_loss >= data_loss_limit:
                     raise TooMuchDataLoss()
                 for target_data_label in target_data_labels:
                     target_values_sub_vector.append(series[i].data[target_data_label])
diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 8c2aefa..bd053f1 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -514,7 +514,7 @@ class PeriodicAverageForecaster(Forecaster):
             totals = {}
             processed = 0
             for item in series:
-                if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
+                if data_loss_limit is not None and item.data_loss is not None and item.data_loss >= data_loss_limit:
                     continue
                 periodicity_index = _get_periodicity_index(item, series.resolution, label_periodicity, dst_affected)
                 if not periodicity_index in sums:
diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index 16f8f55..ac81b28 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -426,7 +426,7 @@ class PeriodicAverageReconstructor(Reconstructor):
             totals = {}
             processed = 0
             for item in series:
-                if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
+                if data_loss_limit is not None and item.data_loss is not None and item.data_loss >= data_loss_limit:
                     continue
                 periodicity_index = _get_periodicity_index(item, series.resolution, periodicity, dst_affected=dst_affected)
                 if not periodicity_index in sums:
-- 
2.43.0


From 6f5b2323a45697f653b792e2fa3d53a608709ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:22 +0000
Subject: [PATCH 38/86] fix: refuse to append to a view, where the item was
 silently lost

---
 timeseria/datastructures.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 07920bf..0df9e52 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -2009,6 +2009,11 @@ class TimeSeriesView(TimeSeries):
         else:
             return super().data_labels()
 
+    def append(self, item):
+        if self.series:
+            raise TypeError('Cannot append to a view, materialize it first')
+        super().append(item)
+
     def materialize(self):
         """Return a materialized series view"""
         materialized_series = self.__class__()
-- 
2.43.0


From 4719cacc06560abbd5f2a919316bfd9c0defaa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 39/86] fix: allow to load generic anomaly detectors by giving
 the model class

---
 timeseria/models/anomaly_detectors.py | 9 ++++++---
 timeseria/models/base.py              | 6 +++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 864e9e4..ac512aa 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -197,10 +197,13 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
         super(ModelBasedAnomalyDetector, self).__init__()
  
     @classmethod
-    def load(cls, path):
+    def load(cls, path, model_class=None):
 
-        # Load the anomaly detection model
-        model = super().load(path)
+        # Load the anomaly detection model (the model class is required only if not already set in the anomaly detector)
+        if model_class:
+            model = super().load(path, model_class=model_class)
+        else:
+            model = super().load(path)
 
         # ..and load the inner model(s) as nested model
         if model.data['with_context']:
diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 8ce7afc..07126ed 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -85,14 +85,14 @@ class Model():
             return self.data['id']
 
     @classmethod
-    def load(cls, path):
-        """Load the model from a path."""
+    def load(cls, path, **kwargs):
+        """Load the model from a path. Extra arguments, if any, are forwarded to the model init."""
         # Do we have to load the model (if parametric?)
         #if not cls._is_parametric():
         #    raise ValueError('Loading a non-parametric model from a path does not make sense')
 
         # Create the model
-        model = cls()
+        model = cls(**kwargs)
 
         # Set the data (replaces the model ID also)
         with open(path+'/data.json', 'r') as f:
-- 
2.43.0


From 46b2c0b07cfe32c2443a31cabd1cefc40b93a3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 40/86] fix: leave the model as it was when fitting it fails

---
 timeseria/models/base.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 07126ed..c950e09 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -179,6 +179,11 @@ class Model():
             if isinstance(series, TimeSeries):
                 _check_timeseries(series)
 
+            # Save the state, so that if the fit fails the model can be left as it was
+            previous_state = dict(self.__dict__)
+            previous_data = dict(self.data)
+
+            try:
                 # Set resolution
                 try:
                     self.data['resolution'] = series.resolution
@@ -191,8 +196,14 @@ class Model():
                 except AttributeError:
                     pass
 
-            # Call fit logic
-            fit_output = fit_function(self, series, *args, **kwargs)
+                # Call fit logic
+                fit_output = fit_function(self, series, *args, **kwargs)
+
+            except Exception:
+                self.__dict__.clear()
+                self.__dict__.update(previous_state)
+                self.data = previous_data
+                raise
 
             self.data['fitted_at'] = now_s()
             self.fitted = True
-- 
2.43.0


From 9eb6f074ed480e13ed35cd84d0a539c27e8b3481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 41/86] fix: refuse to save Prophet and ARIMA models, which
 could not be loaded back

---
 timeseria/models/base.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index c950e09..07f7e16 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -465,6 +465,15 @@ class Model():
 class _ProphetModel(Model):
     '''A model using Prophet as underlying engine, and providing some extra internal functions for common operations.'''
 
+    @classmethod
+    def load(cls, path, **kwargs):
+        """Disabled. Loading this model is not implemented yet."""
+        raise NotImplementedError('Loading this model is not implemented yet') from None
+
+    def save(self, path):
+        """Disabled. Saving this model is not implemented yet."""
+        raise NotImplementedError('Saving this model is not implemented yet') from None
+
     @classmethod
     def _remove_timezone(cls, dt):
         return dt.replace(tzinfo=None)
@@ -501,6 +510,15 @@ class _ProphetModel(Model):
 class _ARIMAModel(Model):
     '''A model using statsmodel's ARIMA as underlying engine, and providing some extra internal functions for common operations.'''
 
+    @classmethod
+    def load(cls, path, **kwargs):
+        """Disabled. Loading this model is not implemented yet."""
+        raise NotImplementedError('Loading this model is not implemented yet') from None
+
+    def save(self, path):
+        """Disabled. Saving this model is not implemented yet."""
+        raise NotImplementedError('Saving this model is not implemented yet') from None
+
     def _get_start_end_indexes(self, series, n):
 
         # Do the math to get the right indexes for the prediction, both out-of-sample and in-sample
-- 
2.43.0


From 32306748eaed235b33c9dafbd34645e82ccbe0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 42/86] fix: LSTM forecaster with a list of targets, and refit
 without normalization

---
 timeseria/models/forecasters.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index bd053f1..0c11324 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -896,10 +896,10 @@ class LSTMForecaster(Forecaster, _KerasModel):
         else:
             if isinstance(target, str):
                 target_data_labels = [target]
-            elif isinstance(target_data_labels, list):
+            elif isinstance(target, list):
                 target_data_labels = target
             else:
-                raise TypeError('Don\'t know how to target for data labels as type "{}"'.format(target_data_labels.__class__.__name__))
+                raise TypeError('Don\'t know how to target for data labels as type "{}"'.format(target.__class__.__name__))
             for target_data_label in target_data_labels:
                 if target_data_label not in series.data_labels():
                     raise ValueError('Cannot target data label "{}" as not found in the series labels ({})'.format(target_data_label, series.data_labels()))
@@ -942,6 +942,12 @@ class LSTMForecaster(Forecaster, _KerasModel):
             self.data['min_values'] = min_values
             self.data['max_values'] = max_values
 
+        else:
+
+            # Discard the normalization factors of a previous fit, if any
+            self.data.pop('min_values', None)
+            self.data.pop('max_values', None)
+
         # Move to matrix representation
         window_elements_matrix, target_values_vector, context_data_vector = self._to_matrix_representation(series = series,
                                                                                                            window = self.data['window'],
-- 
2.43.0


From 938b661e418fb90d473ae053eab32ccfe9ff4803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:04 +0000
Subject: [PATCH 43/86] fix: check data losses on both sides when applying
 anomaly detectors, and details of items not scored

---
 timeseria/models/anomaly_detectors.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index ac512aa..a03182d 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -668,13 +668,19 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                     if series[i-j-1].data_loss is not None and series[i-j-1].data_loss >= data_loss_threshold:
                         abort=True
                         break
-                if not abort:
-                    if issubclass(self.model_class, Reconstructor):
-                        if series[i-j-1].data_loss is not None and series[i+j+1].data_loss >= data_loss_threshold:
+                if not abort and issubclass(self.model_class, Reconstructor):
+                    for j in range(self.data['model_window']):
+                        if series[i+j+1].data_loss is not None and series[i+j+1].data_loss >= data_loss_threshold:
                             abort=True
                             break
             if abort:
-                # Just append the item as-is and continue
+                # Just append the item as-is (with no details, if any) and continue
+                item = deepcopy(item)
+                if details:
+                    for data_label in series.data_labels():
+                        for detail in ['pred', 'err', 'adh']:
+                            if isinstance(details, bool) or detail in details:
+                                item.data['{}_{}'.format(data_label, detail)] = None
                 result_series.append(item)
                 continue
 
@@ -759,7 +765,7 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                         if 'err' in details:
                             item.data['{}_err'.format(data_label)] = prediction_error
                         if 'adh' in details:
-                            item.data['{}_adh)'.format(data_label)] = y/y_max
+                            item.data['{}_adh'.format(data_label)] = y/y_max
                     elif isinstance(details, bool):
                         item.data['{}_pred'.format(data_label)] = predicted
                         item.data['{}_err'.format(data_label)] = prediction_error
-- 
2.43.0


From d66e5db1358c28a38ab065b691d799c1e333a0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:04 +0000
Subject: [PATCH 44/86] fix: mirror the errors on the left side of the
 distribution around its center

---
 timeseria/models/anomaly_detectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index a03182d..193fb5b 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -724,7 +724,7 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
 
                 # Reverse values on the left side of the error distribution
                 if prediction_error < self.data['error_distributions_params'][data_label]['loc']:
-                    prediction_error =  abs(prediction_error) + self.data['error_distributions_params'][data_label]['loc']
+                    prediction_error = 2*self.data['error_distributions_params'][data_label]['loc'] - prediction_error
 
                 # Compute the anomaly index in the given range (which defaults to 0, max_err)
                 # Below the start it means anomaly (0), above always anomaly (1). In the middle it
-- 
2.43.0


From cc70c2297c214126fcc24cf56f59799122595bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:04 +0000
Subject: [PATCH 45/86] fix: apply anomaly detectors fit without storing the
 errors, with bounds as tuple and after a new fit

---
 timeseria/models/anomaly_detectors.py | 39 ++++++++++++++++++---------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 193fb5b..7fac85e 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -227,6 +227,11 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
         else:
             self.model.save('{}/model'.format(path))
 
+    @property
+    def _fit_id(self):
+        # The inner models are created when fitting, so each fit has its own
+        return (self.id, self.data['model_ids'] if self.data['with_context'] else self.data['model_id'])
+
     def _get_actual_value(self, series, i, data_label):
         actual = series[i].data[data_label]
         return actual
@@ -310,9 +315,8 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                 # Fit it
                 self.models[data_label].fit(series, **kwargs, target=data_label, with_context=True, verbose=verbose)
 
-                # Set the model window if not already done:
-                if 'model_window' not in self.data:
-                    self.data['model_window'] = self.models[data_label].window
+                # Set the model window
+                self.data['model_window'] = self.models[data_label].window
 
         else:
             # Initialize the internal model
@@ -341,10 +345,8 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
         self.data['error_metric'] = error_metric
 
         # Initialize internal dictionaries
-        if store_errors:
-            self.data['actual_values'] = {}
-            self.data['predicted_values'] = {}
-            self.data['prediction_errors'] = {}
+        for key in ['actual_values', 'predicted_values', 'prediction_errors']:
+            self.data.pop(key, None)
         self.data['stdevs'] = {} 
         self.data['error_distributions'] = {}
         self.data['error_distributions_params'] = {}
@@ -432,6 +434,10 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
             self.data['error_distributions_params'][data_label] = error_distribution_params
             self.data['error_distributions_stats'][data_label] = best_error_distribution_stats
 
+            abs_prediction_errors = [abs(prediction_error) for prediction_error in prediction_errors[data_label]]
+            best_error_distribution_stats['avg_abs_err'] = sum(abs_prediction_errors)/len(abs_prediction_errors)
+            best_error_distribution_stats['max_abs_err'] = max(abs_prediction_errors)
+
             self.data['stdevs'][data_label] = stdev(prediction_errors[data_label])
 
         if store_errors:
@@ -526,9 +532,17 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
 
             series.predictions[i] = ith_predictions
 
-        series.preprocessed_by = self.id
+        series.preprocessed_by = self._fit_id
         return series
 
+    def _get_abs_error_stat(self, stat, data_label):
+        try:
+            return self.data['error_distributions_stats'][data_label]['{}_abs_err'.format(stat)]
+        except KeyError:
+            # Models saved before introducing the above always have the prediction errors stored
+            abs_prediction_errors = [abs(prediction_error) for prediction_error in self.data['prediction_errors'][data_label]]
+            return max(abs_prediction_errors) if stat == 'max' else sum(abs_prediction_errors)/len(abs_prediction_errors)
+
     @Model.apply_function
     def apply(self, series, index_bounds=['avg_err','max_err'], index_type='log', threshold=None, multivariate_index_strategy='max',
               data_loss_threshold=1.0, details=False, verbose=False):
@@ -591,16 +605,15 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
         y_maxes = {}
 
         for data_label in series.data_labels():
-            abs_prediction_errors = [abs(prediction_error) for prediction_error in self.data['prediction_errors'][data_label]]
             y_maxes[data_label] = error_distribution_functions[data_label](self.data['error_distributions_params'][data_label]['loc'])
-            this_index_bounds = index_bounds[:]
+            this_index_bounds = list(index_bounds)
 
             for i in range(2):
                 if isinstance(this_index_bounds[i], str):
                     if this_index_bounds[i] == 'max_err':
-                        this_index_bounds[i] = max(abs_prediction_errors)
+                        this_index_bounds[i] = self._get_abs_error_stat('max', data_label)
                     elif this_index_bounds[i] == 'avg_err':
-                        this_index_bounds[i] = sum(abs_prediction_errors)/len(abs_prediction_errors)
+                        this_index_bounds[i] = self._get_abs_error_stat('avg', data_label)
                     elif this_index_bounds[i].endswith('_sigma'):
                         this_index_bounds[i] = float(this_index_bounds[i].replace('_sigma',''))*self.data['stdevs'][data_label]
                     elif this_index_bounds[i].endswith('sig'):
@@ -636,7 +649,7 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
 
         # Is this series pre-processed?
         try:
-            preprocessed = True if series.preprocessed_by == self.id else False
+            preprocessed = True if series.preprocessed_by == self._fit_id else False
         except AttributeError:
             preprocessed = False
 
-- 
2.43.0


From c78c178dfbd391d46b5a95c48374deaf33faf921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:29 +0000
Subject: [PATCH 46/86] fix: do not consider absolute errors lower than the
 average as anomalous

---
 timeseria/models/anomaly_detectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 7fac85e..607557c 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -735,8 +735,8 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                 else:
                     raise ValueError('Unknown error type "{}"'.format(self.data['error_metric']))
 
-                # Reverse values on the left side of the error distribution
-                if prediction_error < self.data['error_distributions_params'][data_label]['loc']:
+                # Reverse values on the left side of the error distribution (if the error has a sign, otherwise the lower the better)
+                if self.data['error_metric'] in ['E', 'PE'] and prediction_error < self.data['error_distributions_params'][data_label]['loc']:
                     prediction_error = 2*self.data['error_distributions_params'][data_label]['loc'] - prediction_error
 
                 # Compute the anomaly index in the given range (which defaults to 0, max_err)
-- 
2.43.0


From fb04d3de1dc827b82a95531e47391ceba09a6afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:07 +0000
Subject: [PATCH 47/86] fix: report the actual errors in the details of the
 anomaly detectors

---
 timeseria/models/anomaly_detectors.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 607557c..f915df4 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -735,6 +735,9 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                 else:
                     raise ValueError('Unknown error type "{}"'.format(self.data['error_metric']))
 
+                # Keep track of the actual error for the details
+                actual_prediction_error = prediction_error
+
                 # Reverse values on the left side of the error distribution (if the error has a sign, otherwise the lower the better)
                 if self.data['error_metric'] in ['E', 'PE'] and prediction_error < self.data['error_distributions_params'][data_label]['loc']:
                     prediction_error = 2*self.data['error_distributions_params'][data_label]['loc'] - prediction_error
@@ -776,12 +779,12 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                         if 'pred' in details:
                             item.data['{}_pred'.format(data_label)] = predicted
                         if 'err' in details:
-                            item.data['{}_err'.format(data_label)] = prediction_error
+                            item.data['{}_err'.format(data_label)] = actual_prediction_error
                         if 'adh' in details:
                             item.data['{}_adh'.format(data_label)] = y/y_max
                     elif isinstance(details, bool):
                         item.data['{}_pred'.format(data_label)] = predicted
-                        item.data['{}_err'.format(data_label)] = prediction_error
+                        item.data['{}_err'.format(data_label)] = actual_prediction_error
                         item.data['{}_adh'.format(data_label)] = y/y_max
                     else:
                         raise TypeError('The "details" argument accepts only True/False or a list containing what details to add, as strings.')
-- 
2.43.0


From ae73e72d487626da413135754ce63bf10573e309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:37 +0000
Subject: [PATCH 48/86] fix: keep the anomaly index positive for errors lower
 than the average with bounds below it

---
 timeseria/models/anomaly_detectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index f915df4..1a92d3c 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -755,9 +755,9 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                     anomaly_index = 1
                 else:
                     if index_type == 'lin':
-                        anomaly_index = 1 - ((y-y_end)/(y_start-y_end))
+                        anomaly_index = max(0, 1 - ((y-y_end)/(y_start-y_end)))
                     elif index_type == 'log':
-                        anomaly_index = (log10(y) - log_10_y_start) / (log_10_y_end - log_10_y_start)
+                        anomaly_index = max(0, (log10(y) - log_10_y_start) / (log_10_y_end - log_10_y_start))
                     else:
                         if callable(index_type):
                             anomaly_index = index_type(x, y, x_start, x_end, y_start, y_end)
-- 
2.43.0


From 9af27aaed9e8bca4457146753a92576028cba29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 49/86] fix: always terminate the sampling interval detection,
 not losing counts when rounding

---
 timeseria/utilities.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 86bd560..d3a4ed6 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -103,12 +103,13 @@ def detect_sampling_interval(timeseries, confidence=False):
         or_diffs=diffs
         diffs={}
         for diff in or_diffs:
-            diff=round(diff)
-            if diff not in diffs:
-                diffs[diff] = 1
+            rounded_diff=round(diff)
+            if rounded_diff not in diffs:
+                diffs[rounded_diff] = or_diffs[diff]
             else:
-                diffs[diff] +=1
+                diffs[rounded_diff] += or_diffs[diff]
 
+        i += 1
         if i > 10:
             raise Exception('Cannot automatically detect the sampling interval')
 
@@ -119,6 +120,10 @@ def detect_sampling_interval(timeseries, confidence=False):
             most_common_diff_total = diffs[diff]
             most_common_diff = diff
 
+    # If rounded to zero, there is no meaningful sampling interval
+    if most_common_diff == 0:
+        raise Exception('Cannot automatically detect the sampling interval')
+
     second_most_common_diff_total = 0
     second_most_common_diff = None
     for diff in diffs:
-- 
2.43.0


From 2640e33fa75c1ee8732a9d7ba59e6dfcd1650cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 50/86] fix: show series for which the sampling interval cannot
 be detected

---
 timeseria/datastructures.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 0df9e52..d42fbf0 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1562,8 +1562,13 @@ class TimeSeries(Series):
             resolution_string = 'undefined resolution'
         else:
             if self.resolution == 'variable':
-                autodetected_sampling_interval_as_str = TimeUnit(_to_time_unit_string(self._autodetected_sampling_interval, friendlier=True))
-                resolution_string = 'variable resolution (~{})'.format(autodetected_sampling_interval_as_str)
+                try:
+                    autodetected_sampling_interval_as_str = TimeUnit(_to_time_unit_string(self._autodetected_sampling_interval, friendlier=True))
+                except Exception:
+                    # The sampling interval cannot be always detected
+                    resolution_string = 'variable resolution'
+                else:
+                    resolution_string = 'variable resolution (~{})'.format(autodetected_sampling_interval_as_str)
             else:
                 resolution_string = '{} resolution'.format(self.resolution)
         return resolution_string
-- 
2.43.0


From 286d177f449e623ab03fb51e6b837c87d889e5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:50 +0000
Subject: [PATCH 51/86] fix: do not detect periodicities in floating point
 noise

---
 timeseria/utilities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index d3a4ed6..bb9a31d 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -167,6 +167,9 @@ def detect_periodicity(timeseries):
         # Compute FFT (Fast Fourier Transform)
         yf = fft.fft(y)
 
+        # Below this level there is just floating point noise
+        noise_level = max([abs(f) for f in yf]) * 1e-10
+
         # Remove specular data
         len_yf = len(yf)
         middle_point=round(len_yf/2)
@@ -176,7 +179,7 @@ def detect_periodicity(timeseries):
         yf = [abs(f) for f in yf]
 
         # Find FFT peaks
-        peak_indexes, _ = find_peaks(yf, height=None)
+        peak_indexes, _ = find_peaks(yf, height=noise_level)
         peaks = []
         for i in peak_indexes:
             peaks.append([i, yf[i]])
-- 
2.43.0


From 8ffbf4ace27952bc2db39aac6d4e1bd1cc31ee56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 52/86] fix: save models fit on series with NumPy values, and
 leave no partial model behind when not serializable

---
 timeseria/models/base.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 07f7e16..9a17507 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -28,6 +28,14 @@ except (ImportError,AttributeError):
     pass
 
 
+def _numpy_to_native(value):
+    """Convert NumPy scalars (e.g. from series created from data frames) to native types, for the JSON serialization."""
+    try:
+        return value.item()
+    except (AttributeError, ValueError):
+        raise TypeError('Object of type {} is not JSON serializable'.format(value.__class__.__name__)) from None
+
+
 class TooMuchDataLoss(Exception):
     pass
 
@@ -126,8 +134,7 @@ class Model():
         if os.path.exists(path):
             raise ValueError('The path "{}" already exists'.format(path))
 
-        # Prepare model dir and dump data as json
-        os.makedirs(path)
+        # Set the model data file
         model_data_file = '{}/data.json'.format(path)
 
         # Temporary change the resolution to its string representation (if any)
@@ -135,15 +142,19 @@ class Model():
             resolution_obj = self.data['resolution']
             self.data['resolution'] = str(resolution_obj)
 
-        # Write the data
+        # Dump data as json
         try:
-            with open(model_data_file, 'w') as f:
-                f.write(json.dumps(self.data))
+            json_data = json.dumps(self.data, default=_numpy_to_native)
         finally:
             # In any case revert resolution back to object (if any)
             if 'resolution' in self.data:
                 self.data['resolution'] = resolution_obj
 
+        # Prepare model dir and write the data
+        os.makedirs(path)
+        with open(model_data_file, 'w') as f:
+            f.write(json_data)
+
         logger.info('Saved model with id "%s" in "%s"', self.data['id'], path)
 
 
-- 
2.43.0


From 19d08556cdfb3583960d263f286a3b71fe3de1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 53/86] fix: remove only the prefix from the cross validation
 arguments

---
 timeseria/models/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 9a17507..438e261 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -363,10 +363,10 @@ class Model():
         for kwarg in kwargs:
             if kwarg.startswith('fit_'):
                 consumed_kwargs.append(kwarg)
-                fit_kwargs[kwarg.replace('fit_', '')] = kwargs[kwarg]
+                fit_kwargs[kwarg[len('fit_'):]] = kwargs[kwarg]
             if kwarg.startswith('evaluate_'):
                 consumed_kwargs.append(kwarg)
-                evaluate_kwargs[kwarg.replace('evaluate_', '')] = kwargs[kwarg]
+                evaluate_kwargs[kwarg[len('evaluate_'):]] = kwargs[kwarg]
         for consumed_kwarg in consumed_kwargs:
             kwargs.pop(consumed_kwarg)
 
-- 
2.43.0


From c341ed8238ed659178759c6972d5775e70fff8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:42 +0000
Subject: [PATCH 54/86] fix: cross validate on all of the items of the series

---
 timeseria/models/base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 438e261..e1588f8 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -374,15 +374,16 @@ class Model():
         if kwargs:
             raise Exception('Got some unknown args: {}'.format(kwargs))
 
-        # How many items per round?
-        round_items = int(len(series) / rounds)
-        logger.debug('Items per round: {}'.format(round_items))
+        # Are there enough items?
+        if rounds > len(series):
+            raise ValueError('Cannot cross-validate in {} rounds a series of {} items'.format(rounds, len(series)))
 
         # Start the fit / evaluate loop
         evaluations = []
         for i in range(rounds):
-            validate_from_i = round_items*i
-            validate_to_i =   (round_items*i)+round_items
+            # Split evenly, so that all of the items are validated
+            validate_from_i = (len(series)*i)//rounds
+            validate_to_i =   (len(series)*(i+1))//rounds
             validate_from_t = series[validate_from_i].t
             try:
                 validate_to_t = series[validate_to_i].t
-- 
2.43.0


From e5d2ff885f568f11ae3568d95958e1f8c418cb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 55/86] fix: leave the model not fitted if a cross validation
 fails

---
 timeseria/models/base.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index e1588f8..6b6d81a 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -424,6 +424,9 @@ class Model():
                         except (AttributeError, NotImplementedError):
                             # TODO: Log a warning?
                             logger.debug('Not supported')
+                        except Exception:
+                            self.fitted = False
+                            raise
                 else:
                     logger.debug('Fitting from {} to the end'.format(validate_to_t))
                     series_view = TimeSeriesView(series=series, from_i=validate_to_i, to_i=len(series))
@@ -444,10 +447,15 @@ class Model():
                         except (AttributeError, NotImplementedError):
                             # TODO: Log a warning?
                             logger.debug('Not supported')
+                        except Exception:
+                            self.fitted = False
+                            raise
 
             # Evaluate & append
-            evaluations.append(self.evaluate(TimeSeriesView(series=series, from_i=validate_from_i, to_i=validate_to_i), **evaluate_kwargs))
-            self.fitted = False
+            try:
+                evaluations.append(self.evaluate(TimeSeriesView(series=series, from_i=validate_from_i, to_i=validate_to_i), **evaluate_kwargs))
+            finally:
+                self.fitted = False
 
         # Regroup evaluations
         evaluation_metrics = list(evaluations[0].keys())
-- 
2.43.0


From f13404bea12bab6cb9a417d1a26bc5072aa5bf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 56/86] fix: use the window of the forecaster when evaluating,
 also if not stored in its data

---
 timeseria/models/forecasters.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 0c11324..c7c5afb 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -272,8 +272,8 @@ class Forecaster(Model):
                 raise ValueError('Returning the evaluation series is only supported with single step ahead forecasts')
 
             results_series = series.duplicate()
-            if self.data['window']:
-                results_series = results_series[self.data['window']:]
+            if self.window:
+                results_series = results_series[self.window:]
 
         # Support vars
         results = {}
@@ -283,10 +283,10 @@ class Forecaster(Model):
         predicted_values = {}
 
         try:
-            if not self.data['window']:
+            if not self.window:
                 start_i = 0
             else:
-                start_i = self.data['window']
+                start_i = self.window
         except (KeyError, AttributeError):
             start_i = 0
 
-- 
2.43.0


From 26e4df0859c1938b8eb4e89b6ce2e94e4684bd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 57/86] fix: compute the MAPE of reconstructors with respect to
 the actual values

---
 timeseria/models/reconstructors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index ac81b28..e2368ef 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -266,7 +266,7 @@ class Reconstructor(Model):
                 if 'MAE' in metrics:
                     evaluation_score['MAE_{}_steps'.format(steps_round)] = mean_absolute_error(overall_predicted_values, overall_actual_values)
                 if 'MAPE' in metrics:
-                    evaluation_score['MAPE_{}_steps'.format(steps_round)] = mean_absolute_percentage_error(overall_predicted_values, overall_actual_values)
+                    evaluation_score['MAPE_{}_steps'.format(steps_round)] = mean_absolute_percentage_error(overall_actual_values, overall_predicted_values)
 
         # Compute overall RMSE
         if 'RMSE' in metrics:
-- 
2.43.0


From 0fc2b723d9e2ef3d206a438b9fa1fea198453d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:26 +0000
Subject: [PATCH 58/86] fix: evaluate reconstructors with no window

---
 timeseria/models/reconstructors.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index e2368ef..d974006 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -160,6 +160,7 @@ class Reconstructor(Model):
         # Support vars
         evaluation_score = {}
         warned = False
+        window = self.window if self.window else 0
 
         # Log
         logger.info('Will evaluate model for %s steps with metrics %s', steps, metrics)
@@ -197,10 +198,10 @@ class Reconstructor(Model):
                         #  i=0 -> 0-1 = -1-th element is the first required (not existent)
                         #  i=1 -> 1-1 = 0-th element is the last required
                         #  i=2 -> 2-1 = 2-nd element is the last required
-                        if i - self.window < 0:
+                        if i - window < 0:
                             stop = True
                         else:
-                            for j in range(i - self.window, i):
+                            for j in range(i - window, i):
                                 if series[j].data_loss is not None and series[j].data_loss >= data_loss_threshold:
                                     stop = True
                                     break
@@ -211,14 +212,14 @@ class Reconstructor(Model):
                         if stop:
                             continue
                     try:
-                        #logger.debug('{} - {} - {} -  {} - {} '.format(i, steps_round, self.window, i + steps_round + self.window, len(series)))
+                        #logger.debug('{} - {} - {} -  {} - {} '.format(i, steps_round, window, i + steps_round + window, len(series)))
                         #  len=6:  i=0 -> 0+1+1 = 2-th element is the last required
                         #  len=6:  i=3 -> 3+1+1 = 5-th element is the last required
                         #  len=6:  i=4 -> 4+1+1 = 6-th element is the last required (not existent)
-                        if (i + steps_round + self.window) >= len(series):
+                        if (i + steps_round + window) >= len(series):
                             stop = True
                         else:
-                            for j in range(i + steps_round, i + steps_round + self.window):
+                            for j in range(i + steps_round, i + steps_round + window):
                                 if series[j].data_loss is not None and series[j].data_loss >= data_loss_threshold:
                                     stop = True
                                     break
-- 
2.43.0


From 91c1792c2e52b92f10ba0b69a5398a0fdd37eb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:59 +0000
Subject: [PATCH 59/86] fix: use parametric models with nothing to fit

---
 timeseria/models/base.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 6b6d81a..a0d83a1 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -248,9 +248,10 @@ class Model():
                     if isinstance(series.item_type, Point) and len(series) == 1:
                         # Do not check if the data is a point time series and has only one item
                         pass
-                    else:
+                    elif 'resolution' in self.data:
                         _check_resolution(series, self.data['resolution'])
-                    _check_data_labels(series, self.data['data_labels'])
+                    if 'data_labels' in self.data:
+                        _check_data_labels(series, self.data['data_labels'])
 
             # Check context
             if 'context_data' in kwargs and kwargs['context_data'] and ('context_data_labels' not in self.data or not self.data['context_data_labels']):
@@ -288,9 +289,10 @@ class Model():
                     if isinstance(series.item_type, Point) and len(series) == 1:
                         # Do not check if the data is a point time series and has only one item
                         pass
-                    else:
+                    elif 'resolution' in self.data:
                         _check_resolution(series, self.data['resolution'])
-                    _check_data_labels(series, self.data['data_labels'])
+                    if 'data_labels' in self.data:
+                        _check_data_labels(series, self.data['data_labels'])
 
             # Call apply logic
             return apply_function(self, series, *args, **kwargs)
@@ -322,9 +324,10 @@ class Model():
                     if isinstance(series.item_type, Point) and len(series) == 1:
                         # Do not check if the data is a point time series and has only one item
                         pass
-                    else:
+                    elif 'resolution' in self.data:
                         _check_resolution(series, self.data['resolution'])
-                    _check_data_labels(series, self.data['data_labels'])
+                    if 'data_labels' in self.data:
+                        _check_data_labels(series, self.data['data_labels'])
 
             # Call evaluate logic
             return evaluate_function(self, series, *args, **kwargs)
-- 
2.43.0


From 3809add5a5ace94933c49c45214a5e30614dc468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:37 +0000
Subject: [PATCH 60/86] fix: apply ARIMA models only after the end of the
 series they were fit on, also if it is extended afterwards

---
 timeseria/models/forecasters.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index c7c5afb..ef13240 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -723,6 +723,9 @@ class ARIMAForecaster(Forecaster, _ARIMAModel):
         # Save the series we used for the fit.
         self.fit_series = series
 
+        # Save also where it ends, as it might be extended afterwards
+        self.fit_series_end_t = series[-1].t
+
         # The ARIMA models, as Prophet, have no window
         self.data['window'] = 0
 
@@ -734,7 +737,7 @@ class ARIMAForecaster(Forecaster, _ARIMAModel):
         data_label = self.data['data_labels'][0]
 
         # Chack that we are applying on a time series ending with the same data point where the fit series was
-        if self.fit_series[-1].t != series[-1].t:
+        if self.fit_series_end_t != series[-1].t:
             raise NonContiguityError('Sorry, this model can be applied only on a time series ending with the same timestamp as the time series used for the fit.')
 
         # Return the predicion. We need the [0] to access yhat, other indexes are erorrs etc.
@@ -782,6 +785,9 @@ class AARIMAForecaster(Forecaster, _ARIMAModel):
         # Save the series we used for the fit.
         self.fit_series = series
 
+        # Save also where it ends, as it might be extended afterwards
+        self.fit_series_end_t = series[-1].t
+
         # The ARIMA models, as Prophet, have no window
         self.data['window'] = 0
 
@@ -791,7 +797,7 @@ class AARIMAForecaster(Forecaster, _ARIMAModel):
         data_label = self.data['data_labels'][0]
 
         # Chack that we are applying on a time series ending with the same datapoint where the fit series was
-        if self.fit_series[-1].t != series[-1].t:
+        if self.fit_series_end_t != series[-1].t:
             raise NonContiguityError('Sorry, this model can be applied only on a time series ending with the same timestamp as the time series used for the fit.')
 
         # Return the predicion. We need the [0] to access yhat, other indexes are erorrs etc.
-- 
2.43.0


From b1b84b07bc352c982d4c3e7c921480781efbfd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:33 +0000
Subject: [PATCH 61/86] fix: keep the end of the slots when operating on series
 on another time zone

---
 timeseria/operations.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 210522c..ef86681 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -333,6 +333,7 @@ class Derivative(Operation):
                                                           data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
                     der_series.append(series[0].__class__(start = item.start,
+                                                          end = item.end,
                                                           unit = item.unit,
                                                           data = der_data,
                                                           data_indexes = item.data_indexes))
@@ -480,6 +481,7 @@ class Integral(Operation):
                                                           data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
                     int_series.append(series[0].__class__(start = item.start,
+                                                          end = item.end,
                                                           unit = item.unit,
                                                           data = data,
                                                           data_indexes = item.data_indexes))
@@ -589,6 +591,7 @@ class Normalize(Operation):
                                                                  data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
                     normalized_series.append(series[0].__class__(start = item.start,
+                                                                 end = item.end,
                                                                  unit = item.unit,
                                                                  data = normalized_data,
                                                                  data_indexes = item.data_indexes))
@@ -653,6 +656,7 @@ class Rescale(Operation):
                                                                data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
                     rescaled_series.append(series[0].__class__(start = item.start,
+                                                               end = item.end,
                                                                unit = item.unit,
                                                                data = rescaled_data,
                                                                data_indexes = item.data_indexes))
@@ -718,6 +722,7 @@ class Offset(Operation):
                                                                data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
                     rescaled_series.append(series[0].__class__(start = item.start,
+                                                               end = item.end,
                                                                unit = item.unit,
                                                                data = offsetted_data,
                                                                data_indexes = item.data_indexes))
@@ -781,6 +786,7 @@ class MAvg(Operation):
                                                        data = mavg_data))
             elif isinstance(series[0], Slot):
                 mavg_series.append(series[0].__class__(start = item.start,
+                                                       end = item.end,
                                                        unit = item.unit,
                                                        data = mavg_data))
             else:
@@ -1120,6 +1126,7 @@ class Merge(Operation):
                                                              data_indexes = data_indexes))
             elif isinstance(reference_series[0], Slot):
                 result_series.append(seriess[0][0].__class__(start = reference_series[i].start,
+                                                             end   = reference_series[i].end,
                                                              unit  = unit,
                                                              data  = data,
                                                              data_indexes = data_indexes))
-- 
2.43.0


From ce8678aa1a88957ebb367dae260d18bb2b7a56d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:16 +0000
Subject: [PATCH 62/86] fix: allow changing the time zone of an empty series

---
 timeseria/datastructures.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index d42fbf0..2509124 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1474,9 +1474,9 @@ class TimeSeries(Series):
 
     def change_tz(self, tz):
         """Change the time zone of the time series, in-place."""
-        for time_point in self:
-            time_point.change_tz(tz)
-        self._tz = time_point.tz
+        for item in self:
+            item.change_tz(tz)
+        self._tz = timezonize(tz)
 
     def as_tz(self, tz):
         """Get a copy of the time series on a new time zone."""
-- 
2.43.0


From 9ea69bfb5c5c2ccc97783ea7cd7c7785987b7c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:21 +0000
Subject: [PATCH 63/86] fix: place plot marks on the time zone of the series,
 whatever the one they are given on

---
 timeseria/plots.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index 24e70b4..1a7a04b 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -8,6 +8,7 @@
 import os
 import uuid
 import datetime
+from pytz import UTC
 from propertime.utils import dt_from_s, str_from_dt, dt_from_str, s_from_dt
 from .units import TimeUnit
 from .utilities import is_numerical, os_shell
@@ -100,14 +101,10 @@ _extra_colormap_rgb = [
 def to_rgba_str_from_norm_rgb(rgb, a):
     return 'rgba({},{},{},{})'.format(rgb[0]*255,rgb[1]*255,rgb[2]*255,a)
 
-def _utc_fake_s_from_dt(dt):
-    dt_str = str_from_dt(dt)
-    if '+' in dt_str:
-        return s_from_dt(dt_from_str(dt_str.split('+')[0]+'+00:00'))
-    elif '-' in dt_str:
-        return s_from_dt(dt_from_str(dt_str.split('-')[0]+'+00:00'))
-    else:
+def _utc_fake_s_from_dt(dt, tz):
+    if dt.tzinfo is None:
         raise ValueError('Cannot convert to fake UTC epoch a datetime without a timezone')
+    return s_from_dt(dt.astimezone(tz).replace(tzinfo=UTC))
 
 def _check_data_for_plot(data):
     if is_numerical(data):
@@ -900,8 +897,8 @@ animatedZooms: true,"""
             raise TypeError('Mark start/end marks be datetime objects')
 
         # Convert the mark to fake epoch milliseconds
-        mark_start = _utc_fake_s_from_dt(mark[0])*1000
-        mark_end   = _utc_fake_s_from_dt(mark[1])*1000
+        mark_start = _utc_fake_s_from_dt(mark[0], series.tz)*1000
+        mark_end   = _utc_fake_s_from_dt(mark[1], series.tz)*1000
 
         # Add js code
         dygraphs_javascript += 'underlayCallback: function(canvas, area, g) {'
-- 
2.43.0


From de8d5d2236376dab57eb248c9c6f0bf5ce62be49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:21 +0000
Subject: [PATCH 64/86] fix: do not leave negative values out of the range of
 the plots

---
 timeseria/plots.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index 1a7a04b..17fc3a5 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -719,13 +719,15 @@ function legendFormatter(data) {
         plot_max = str(global_max+((global_max-global_min)*0.1))
     else:
         # Case where there is a straight line
-        plot_min = str(global_min*0.99)
-        plot_max = str(global_max*1.01)
+        plot_margin = abs(global_min)*0.01 if global_min else 0.01
+        plot_min = str(global_min-plot_margin)
+        plot_max = str(global_max+plot_margin)
 
     # Overwrite plot min and max?
     if value_range != 'auto':
-        plot_min = str(value_range[0]*0.99)
-        plot_max = str(value_range[1]*1.01)
+        plot_margin = (value_range[1]-value_range[0])*0.01
+        plot_min = str(value_range[0]-plot_margin)
+        plot_max = str(value_range[1]+plot_margin)
 
     #dygraphs_javascript += '"Timestamp,{}\\n{}",'.format(labels, dg_data)
     dygraphs_javascript += '{},'.format(dg_data)
-- 
2.43.0


From 1793cb70bd8ed76251d135292034955ebd07c603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:21 +0000
Subject: [PATCH 65/86] fix: plot all of the items on the time zone of the
 series

---
 timeseria/plots.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index 17fc3a5..0e466f7 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -143,6 +143,9 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
     global_min = None
     global_max = None
 
+    # All the items go on the time zone of the series, which is the one reported in the legend
+    tz = serie.tz
+
     if mark:
         series_mark_start_t = s_from_dt(mark[0])
         series_mark_end_t = s_from_dt(mark[1])
@@ -270,7 +273,7 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
                 data_part = data_part[0:-1]
 
                 # Add to dg_data
-                dg_data += '[{},{}],'.format(_to_dg_time(dt_from_s(aggregation_t, tz=item.tz)), data_part)
+                dg_data += '[{},{}],'.format(_to_dg_time(dt_from_s(aggregation_t, tz=tz)), data_part)
 
                 # Reset averages
                 data_sums = [0 for label in labels]
@@ -338,7 +341,7 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
             data_part = data_part[0:-1]
 
             # Add to dg_data
-            dg_data += '[{},{}],'.format(_to_dg_time(dt_from_s(item.t, tz=item.tz)), data_part)
+            dg_data += '[{},{}],'.format(_to_dg_time(dt_from_s(item.t, tz=tz)), data_part)
 
     if dg_data.endswith(','):
         dg_data = dg_data[0:-1]
-- 
2.43.0


From 45cec32891232e3943418133cb71295bfb3dadf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:36 +0000
Subject: [PATCH 66/86] fix: average only the indexes present when aggregating
 plots

---
 timeseria/plots.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index 0e466f7..8fcb901 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -167,6 +167,7 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
             data_mins = [None for label in labels]
             data_maxs = [None for label in labels]
             index_sums = [0 for index in data_indexes_to_plot]
+            index_counts = [0 for index in data_indexes_to_plot]
 
 
         #====================
@@ -229,6 +230,7 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
                     index_value = item.data_indexes[index]
                     if index_value is not None:
                         index_sums[j] += index_value
+                        index_counts[j] += 1
                 except KeyError:
                     pass
 
@@ -251,8 +253,8 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
 
                 # data_indexes
                 for i, index in enumerate(data_indexes_to_plot):
-                    if index_sums[i] is not None:
-                        aggregated_index_value = index_sums[i]/aggregate_by
+                    if index_counts[i]:
+                        aggregated_index_value = index_sums[i]/index_counts[i]
                         if full_precision:
                             data_part+='[0,{},{}],'.format(aggregated_index_value,aggregated_index_value)
                         else:
@@ -280,6 +282,7 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
                 data_mins = [None for label in labels]
                 data_maxs = [None for label in labels]
                 index_sums = [0 for index in data_indexes_to_plot]
+                index_counts = [0 for index in data_indexes_to_plot]
                 first_t = None
 
         #====================
-- 
2.43.0


From 0ed10d01fa5544c81d84d30b45fc108714890baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:42 +0000
Subject: [PATCH 67/86] fix: support any data label and index name in plots

---
 timeseria/plots.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index 8fcb901..44e7b25 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -6,6 +6,7 @@
 #================================================================#
 
 import os
+import json
 import uuid
 import datetime
 from pytz import UTC
@@ -106,6 +107,10 @@ def _utc_fake_s_from_dt(dt, tz):
         raise ValueError('Cannot convert to fake UTC epoch a datetime without a timezone')
     return s_from_dt(dt.astimezone(tz).replace(tzinfo=UTC))
 
+def _to_js(value):
+    """Convert a string, or a list of strings, to Javascript (to be embedded in HTML code)"""
+    return json.dumps(value).replace('</', '<\\/')
+
 def _check_data_for_plot(data):
     if is_numerical(data):
         pass
@@ -573,7 +578,7 @@ function legendFormatter(data) {
 
       if (g.getOption('showLabelsOnHighlight') !== true) return '';
 
-      var data_indexes = """+str(series._all_data_indexes())+""";
+      var data_indexes = """+_to_js(series._all_data_indexes())+""";
       var sepLines = g.getOption('labelsSeparateLines');
       var first_data_index = true;
       var html;
@@ -690,31 +695,29 @@ function legendFormatter(data) {
     _check_data_for_plot(series[0].data)
 
     # Loop over all the data labels
-    labels=''
+    labels=[]
     if data_labels_to_plot:
         for data_label_to_plot in data_labels_to_plot:
             if isinstance(series[0].data, list) or isinstance(series[0].data, tuple):
                 if len(data_labels_to_plot) == 1:
-                    labels='value,'
+                    labels.append('value')
                 else:
-                    labels += 'value {},'.format(data_label_to_plot)
+                    labels.append('value {}'.format(data_label_to_plot))
             else:
-                labels += '{},'.format(data_label_to_plot)
-        # Remove last comma
-        labels = labels[0:-1]
+                labels.append(str(data_label_to_plot))
     else:
-        labels='value'
+        labels.append('value')
 
     # Set index labels
     for index in data_indexes_to_plot:
-        labels+=',{}'.format(index)
+        labels.append(str(index))
 
     # Handle series mark (as index)
     if mark and RENDER_MARK_AS_INDEX:
-        labels+=',data_mark'
+        labels.append('data_mark')
 
-    # Prepare labels string list for Dygraphs
-    labels_list = ['Timestamp'] + labels.split(',')
+    # Prepare labels list for Dygraphs
+    labels_list = ['Timestamp'] + labels
 
     # Get series data in Dygraphs format (and aggregate if too much data and find global min and max)
     global_min, global_max, dg_data = _to_dg_data(series, data_labels_to_plot, data_indexes_to_plot, full_precision, aggregate_by, mark)
@@ -741,7 +744,7 @@ function legendFormatter(data) {
 #dateWindow: [0,"""+str(_utc_fake_s_from_dt(series[-1].end.dt)*1000)+"""],
 
     dygraphs_javascript += """{\
-labels: """+str(labels_list)+""",
+labels: """+_to_js(labels_list)+""",
 drawGrid: true,
 drawPoints:"""+drawPoints_value+""",
 strokeWidth: 1.5,
@@ -836,7 +839,7 @@ animatedZooms: true,"""
 
         # Now create the entry for this data index
         dygraphs_javascript += """
-        '"""+data_index_to_plot+"""': {
+        """+_to_js(str(data_index_to_plot))+""": {
          //customBars: false, // Does not work?
          axis: 'y2',
          drawPoints: false,
@@ -863,7 +866,7 @@ animatedZooms: true,"""
     # Add all non-index series to be included in the miniplot
     for label in data_labels_to_plot:
         dygraphs_javascript += """
-           '"""+str(label)+"""': {
+           """+_to_js(str(label))+""": {
              showInRangeSelector:true
            },"""
 
-- 
2.43.0


From 3ba2626dd5e21d804d3f31a8554fee9b935250b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:48 +0000
Subject: [PATCH 68/86] fix: keep the timezone of a series in its views, slices
 and in the results of operations

---
 timeseria/datastructures.py           | 32 ++++++++++++++++++++++-----
 timeseria/models/anomaly_detectors.py |  2 +-
 timeseria/operations.py               | 18 +++++++--------
 3 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 2509124..ccdcb0b 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -868,6 +868,10 @@ class Series(list):
         """ Return a deep copy of the series."""
         return deepcopy(self)
 
+    def _new(self):
+        # A new, empty series of the same kind
+        return self.__class__()
+
     def _item_by_i(self, i):
         return super(Series, self).__getitem__(i)
 
@@ -900,7 +904,7 @@ class Series(list):
         if isinstance(key, slice):
             indices = range(*key.indices(len(self)))
             # Prepare the new series and return it
-            series = self.__class__()
+            series = self._new()
             for i in indices:
                 series.append(super(Series, self).__getitem__(i))
             return series
@@ -1457,9 +1461,10 @@ class TimeSeries(Series):
         """The timezone of the time series."""
         # Note: we compute the tz on the fly because for point time series we assume to use the tz
         # attribute way lass than the slot time series, where the tz is instead computed at append-time.
-        try:
-            return self._tz
-        except AttributeError:
+        tz = self._get_set_tz()
+        if tz is not None:
+            return tz
+        else:
             # Detect timezone on the fly
             # TODO: this ensures that each point is on the same timezone. Do we want this?
             detected_tz = None
@@ -1472,6 +1477,17 @@ class TimeSeries(Series):
                         return UTC
             return detected_tz
 
+    def _get_set_tz(self):
+        # The timezone set for the series, if any
+        return self.__dict__.get('_tz', None)
+
+    def _new(self):
+        # A new, empty series of the same kind, and on the same timezone if it was set (slots always set it on their own)
+        new_series = super(TimeSeries, self)._new()
+        if self._get_set_tz() is not None and not (self and issubclass(self.item_type, TimeSlot)):
+            new_series._tz = self._get_set_tz()
+        return new_series
+
     def change_tz(self, tz):
         """Change the time zone of the time series, in-place."""
         for item in self:
@@ -2014,6 +2030,12 @@ class TimeSeriesView(TimeSeries):
         else:
             return super().data_labels()
 
+    def _get_set_tz(self):
+        tz = super()._get_set_tz()
+        if tz is None and self.series is not None:
+            tz = self.series._get_set_tz()
+        return tz
+
     def append(self, item):
         if self.series:
             raise TypeError('Cannot append to a view, materialize it first')
@@ -2021,7 +2043,7 @@ class TimeSeriesView(TimeSeries):
 
     def materialize(self):
         """Return a materialized series view"""
-        materialized_series = self.__class__()
+        materialized_series = self._new()
         for item in self:
             materialized_series.append(deepcopy(item))
         return materialized_series
diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 1a92d3c..a3448b7 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -578,7 +578,7 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
             verbose(bool): if to print the apply progress (one dot = 10% done).
         """
         # Initialize the result time series
-        result_series = series.__class__()
+        result_series = series._new()
 
         # Initialize the error distribution function
         error_distribution_functions = {}
diff --git a/timeseria/operations.py b/timeseria/operations.py
index ef86681..fde2dd8 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -243,7 +243,7 @@ class Derivative(Operation):
             postfix='diff'
 
         if not inplace:
-            der_series = series.__class__()
+            der_series = series._new()
 
         try:
             # Try to access by label, if data was non key-value this raise, as labels
@@ -371,7 +371,7 @@ class Integral(Operation):
             postfix='csum'
 
         if not inplace:
-            int_series = series.__class__()
+            int_series = series._new()
 
         try:
             # Try to access by label, if data was non key-value this raise, as labels
@@ -525,7 +525,7 @@ class Normalize(Operation):
             custom_range = range
 
         if not inplace:
-            normalized_series = series.__class__()
+            normalized_series = series._new()
 
         data_labels = series.data_labels()
 
@@ -611,7 +611,7 @@ class Rescale(Operation):
         _check_indexed_data(series)
 
         if not inplace:
-            rescaled_series = series.__class__()
+            rescaled_series = series._new()
 
         try:
             # Try to access by label, if data was non key-value this raise, as labels
@@ -676,7 +676,7 @@ class Offset(Operation):
         _check_indexed_data(series)
 
         if not inplace:
-            rescaled_series = series.__class__()
+            rescaled_series = series._new()
 
         try:
             # Try to access by label, if data was non key-value this raise, as labels
@@ -757,7 +757,7 @@ class MAvg(Operation):
         except TypeError:
             data_is_keyvalue = False
 
-        mavg_series = series.__class__()
+        mavg_series = series._new()
 
         for i, item in enumerate(series):
 
@@ -851,7 +851,7 @@ class Filter(Operation):
         _check_indexed_data(series)
 
         # Instantiate the filtered series
-        filtered_series = series.__class__()
+        filtered_series = series._new()
 
         # Filter based on data label
         try:
@@ -938,7 +938,7 @@ class Slice(Operation):
                 return series.__class__()
 
         # Instantiate the new, sliced series
-        sliced_series = series.__class__()
+        sliced_series = series._new()
 
         # Loop over the series in order to support series views as well.
         # TODO: use the original slicing if not a series view?
@@ -1047,7 +1047,7 @@ class Merge(Operation):
                 reference_series = series
 
         # Create the (empty) result time series
-        result_series = seriess[0].__class__()
+        result_series = seriess[0]._new()
 
         # Scroll the time series to get the offsets
         offsets = {}
-- 
2.43.0


From cb7c92469dec00361aec890c63562d0d3fd72d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 69/86] fix: enforce order and succession when setting,
 deleting or adding items in place, copy series as series and never edit views

---
 timeseria/datastructures.py | 63 +++++++++++++++++++++++++++++++++++--
 1 file changed, 61 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index ccdcb0b..028f574 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -862,7 +862,7 @@ class Series(list):
 
     def copy(self):
         """Return a shallow copy of the series."""
-        return super(Series, self).copy()
+        return copy(self)
 
     def duplicate(self):
         """ Return a deep copy of the series."""
@@ -878,11 +878,34 @@ class Series(list):
     def _slice_by_i(self, **args):
         return super(Series, self).__getitem__(**args)
 
+    def _replace_items(self, items):
+        # Replace all the items, enforcing the same checks as if they were appended one by one
+        new_series = self._new()
+        for item in items:
+            new_series.append(item)
+        super(Series, self).__setitem__(slice(None), items)
+
+    def __setitem__(self, key, value):
+        items = list(self)
+        items[key] = value
+        self._replace_items(items)
+
+    def __delitem__(self, key):
+        items = list(self)
+        del items[key]
+        self._replace_items(items)
+
     # Inherited methods to be disabled
-    def extend(self):
+    def extend(self, items=None):
         """Disabled (use the `merge` instead)."""
         raise NotImplementedError('Use the "merge()" instead')
 
+    def __iadd__(self, other):
+        return self.extend(other)
+
+    def __imul__(self, other):
+        raise NotImplementedError('There is only one item by design')
+
     def count(self, x):
         """Disabled (there is only one item instance by design)."""
         raise NotImplementedError('There is only one item by design')
@@ -1358,6 +1381,10 @@ class TimeSeries(Series):
         super(TimeSeries, self).clear()
         self._reset_resolution()
 
+    def _replace_items(self, items):
+        super(TimeSeries, self)._replace_items(items)
+        self._reset_resolution()
+
     def _reset_resolution(self):
         # Recompute the resolution, when the items change in other ways than by appending
         self._reset_autodetected()
@@ -1995,6 +2022,13 @@ class TimeSeriesView(TimeSeries):
         else:
             return super().index(x, start, end)
 
+    def __reduce_ex__(self, protocol):
+        # When copying, the items are those of the series and must not be added to the view itself
+        reduced = super().__reduce_ex__(protocol)
+        if self.series:
+            reduced = reduced[:3] + (None,) + reduced[4:]
+        return reduced
+
     def __len__(self):
         if self.series:
             return self.to_i-self.from_i
@@ -2041,6 +2075,31 @@ class TimeSeriesView(TimeSeries):
             raise TypeError('Cannot append to a view, materialize it first')
         super().append(item)
 
+    def insert(self, i, x):
+        if self.series:
+            raise TypeError('Cannot insert in a view, materialize it first')
+        super().insert(i, x)
+
+    def remove(self, x):
+        if self.series:
+            raise TypeError('Cannot remove from a view, materialize it first')
+        super().remove(x)
+
+    def pop(self, i=None):
+        if self.series:
+            raise TypeError('Cannot pop from a view, materialize it first')
+        return super().pop(i)
+
+    def clear(self):
+        if self.series:
+            raise TypeError('Cannot clear a view, materialize it first')
+        super().clear()
+
+    def _replace_items(self, items):
+        if self.series:
+            raise TypeError('Cannot change the items of a view, materialize it first')
+        super()._replace_items(items)
+
     def materialize(self):
         """Return a materialized series view"""
         materialized_series = self._new()
-- 
2.43.0


From 00dbdaa5c44dee3b569d042e6b3bc406d286e898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:18 +0000
Subject: [PATCH 70/86] fix: keep the timezone of slots in step when setting
 items in place

---
 timeseria/datastructures.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 028f574..3191011 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -884,6 +884,7 @@ class Series(list):
         for item in items:
             new_series.append(item)
         super(Series, self).__setitem__(slice(None), items)
+        return new_series
 
     def __setitem__(self, key, value):
         items = list(self)
@@ -1382,8 +1383,11 @@ class TimeSeries(Series):
         self._reset_resolution()
 
     def _replace_items(self, items):
-        super(TimeSeries, self)._replace_items(items)
+        new_series = super(TimeSeries, self)._replace_items(items)
+        if self and issubclass(self.item_type, TimeSlot):
+            self._tz = new_series._tz
         self._reset_resolution()
+        return new_series
 
     def _reset_resolution(self):
         # Recompute the resolution, when the items change in other ways than by appending
@@ -2098,7 +2102,7 @@ class TimeSeriesView(TimeSeries):
     def _replace_items(self, items):
         if self.series:
             raise TypeError('Cannot change the items of a view, materialize it first')
-        super()._replace_items(items)
+        return super()._replace_items(items)
 
     def materialize(self):
         """Return a materialized series view"""
-- 
2.43.0


From f6c5cabb93d7f462d67ef0c02fa6a6095339dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:27 +0000
Subject: [PATCH 71/86] fix: do not split quoted values, nor silently drop
 those exceeding the columns, when reading CSV files

---
 timeseria/storages.py  | 14 ++++++++++++--
 timeseria/utilities.py | 22 ++++++++++++++++++++++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index d675542..9749b96 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -5,7 +5,7 @@ import os
 import pytz
 import numpy
 import datetime
-from .utilities import detect_encoding, _sanitize_string, _is_list_of_integers, _to_float
+from .utilities import detect_encoding, _sanitize_string, _is_list_of_integers, _to_float, _split_line
 from .units import TimeUnit
 from .datastructures import TimePoint, DataTimePoint, DataTimeSlot, TimeSeries
 from propertime.utils import dt_from_str, dt_from_s, s_from_dt, timezonize, now_dt
@@ -194,6 +194,7 @@ class CSVFileStorage(Storage):
         # Init column indexes and labels
         column_indexes = None
         column_labels = None
+        columns_count = None
 
         timestamp_column_index = None
         time_column_index = None
@@ -253,10 +254,11 @@ class CSVFileStorage(Storage):
                     continue
 
                 # Get values from this line:
-                line_items = line.split(self.separator)
+                line_items = _split_line(line, self.separator)
 
                 # Set column keys if not already done
                 if not column_indexes:
+                    columns_count = len(line_items)
 
                     # Is this line carrying non-numerical or non timestamp data?
                     not_converted = 0
@@ -348,6 +350,14 @@ class CSVFileStorage(Storage):
                 if timestamp_column_index is None and time_column_index is None and date_column_index is None:
                     raise ConsistencyException('Could not set timestamp_column_index nor time_column_index nor date_column_index, somehting wrong happened.')
 
+                # Check that there are no more values than columns
+                if any(_sanitize_string(value) for value in line_items[columns_count:]):
+                    if self.skip_errors:
+                        logger.debug('Got more values than columns in line #%s, skipping the line.', line_number)
+                        continue
+                    else:
+                        raise Exception('Got more values than columns in line #{}, aborting. Set "skip_errors=True" to drop them instead.'.format(line_number))
+
                 # Check that there are all of the time columns
                 if max(index for index in (timestamp_column_index, time_column_index, date_column_index) if index is not None) >= len(line_items):
                     if self.skip_errors:
diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index bb9a31d..d3b8244 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -948,6 +948,28 @@ def _sanitize_string(string, no_data_placeholders=[]):
     return string
 
 
+def _split_line(line, separator):
+    """Split a line in its values, which can contain the separator only if quoted"""
+
+    values = []
+    quote = None
+    for part in line.split(separator):
+        if quote:
+            values[-1] += separator + part
+        else:
+            values.append(part)
+            if part.strip()[:1] in ['\'', '"']:
+                quote = part.strip()[0]
+        value = values[-1].strip()
+        if quote and len(value) > 1 and value.endswith(quote):
+            quote = None
+
+    # If a quote is never closed then it is just part of the value
+    if quote:
+        return line.split(separator)
+    return values
+
+
 def _is_list_of_integers(the_list):
     """Check if the list if made of integers"""
 
-- 
2.43.0


From 51efd9a70a77daca90a4b803c17237ba05530fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:47 +0000
Subject: [PATCH 72/86] fix: do not lose data when renaming a data label to one
 already there

---
 timeseria/datastructures.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 3191011..0436f63 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -959,6 +959,14 @@ class Series(list):
         """Rename a data label, in-place."""
         if len(self) > 0 and not self._item_data_reference:
             raise TypeError('Series items have no data, cannot rename a label')
+        if len(self) > 0:
+            if not hasattr(self._item_data_reference, 'keys'):
+                raise TypeError('Can rename the data labels only of key-value data (got "{}")'.format(self._item_data_reference.__class__.__name__))
+            if old_data_label not in self._item_data_reference:
+                raise KeyError(old_data_label)
+            if new_data_label != old_data_label and new_data_label in self._item_data_reference:
+                # Or the data with such label would be lost
+                raise ValueError('Cannot rename "{}" to "{}" as there is already such a data label'.format(old_data_label, new_data_label))
         for item in self:
             # TODO: move to the DataPoint/DataSlot?
             item.data[new_data_label] = item.data.pop(old_data_label)
-- 
2.43.0


From 0ec0fc9201474074493e6fdbcb638ca5a6d21c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:28 +0000
Subject: [PATCH 73/86] fix: do not accept items with data in series of items
 without

---
 timeseria/datastructures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 0436f63..c52c671 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -713,6 +713,8 @@ class Series(list):
             data_reference = self._item_by_i(0).data
         except AttributeError:
             # No data
+            if hasattr(item, 'data'):
+                raise TypeError('Got an item with data, while the series items have no data') from None
             return
         if not type(data_reference) == type(item.data):
             raise TypeError('Got different data: {} vs {}'.format(data_reference.__class__.__name__, item.data.__class__.__name__))
-- 
2.43.0


From abbd6c5a6f49924537763766ae6f72eb75f7f4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:07 +0000
Subject: [PATCH 74/86] fix: do not ignore the timezone when creating a time
 point from another one

---
 timeseria/datastructures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index c52c671..df382c4 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -140,7 +140,8 @@ class TimePoint(Point):
 
             if isinstance(args[0], TimePoint):
                 t   = args[0].t
-                self._tz = args[0].tz
+                if not tz:
+                    self._tz = args[0].tz
             else:
                 t = args[0]
 
-- 
2.43.0


From 79dd824b733239e92b72e40df5f005e3f2cda0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:07 +0000
Subject: [PATCH 75/86] fix: let slots be compared with anything else, as
 points

---
 timeseria/datastructures.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index df382c4..093185f 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -355,11 +355,14 @@ class Slot():
         return self.__repr__()
 
     def __eq__(self, other):
-        if not self.start == other.start:
-            return False
-        if not self.end == other.end:
+        try:
+            if not self.start == other.start:
+                return False
+            if not self.end == other.end:
+                return False
+            return True
+        except AttributeError:
             return False
-        return True
 
     def __succedes__(self, other):
         if other.end != self.start:
@@ -543,8 +546,11 @@ class DataSlot(Slot):
             return 'Slot @ [{},{}] with data "{}"'.format(self.start.__coordinates_repr__, self.end.__coordinates_repr__, self.data)
 
     def __eq__(self, other):
-        if self._data != other._data:
-            return False
+        try:
+            if self._data != other._data:
+                return False
+        except AttributeError:
+            pass
         return super(DataSlot, self).__eq__(other)
 
     @property
-- 
2.43.0


From d5a9ee7410745793ca734dc0556af503c1d1272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:07 +0000
Subject: [PATCH 76/86] fix: do not accept slots ending before their start

---
 timeseria/datastructures.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 093185f..c1d317f 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -339,8 +339,11 @@ class Slot():
         else:
             if len(start.coordinates) != len(end.coordinates):
                 raise ValueError('{} start and end dimensions must be the same (got "{}" vs "{}")'.format(self.__class__.__name__,start.coordinates, end.coordinates))
-            if start == end:
-                raise ValueError('{} start and end must not be the same (got start="{}", end="{}")'.format(self.__class__.__name__, start,end))
+
+        if start == end:
+            raise ValueError('{} start and end must not be the same (got start="{}", end="{}")'.format(self.__class__.__name__, start,end))
+        if len(start.coordinates) == 1 and start.coordinates[0] > end.coordinates[0]:
+            raise ValueError('{} end must not be before its start (got start="{}", end="{}")'.format(self.__class__.__name__, start,end))
 
         self.start = start
         self.end   = end
-- 
2.43.0


From 03f50e63bd76e943bdeedfa036d75198f2a82a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 77/86] fix: compute the adherence with respect to the center
 of the distribution

---
 timeseria/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index d3b8244..06f4bad 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -436,7 +436,7 @@ class DistributionFunction():
 
     def adherence(self, x):
         """Compute the "adherence" of a value x with respect to the distribution (in a 0-1 range)"""
-        return 2 * (1-self.dist_obj.cdf(abs(x), **self.params))
+        return 2 * np.minimum(self.dist_obj.cdf(x, **self.params), self.dist_obj.sf(x, **self.params))
 
     def find_x(self, y, wideness=1000, side='right'):
         # Note: "self" can be any function, we use this class as a callable here
-- 
2.43.0


From ceb83e3d79fd8ac166f7b7f53b7fe3351c09e545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 78/86] fix: search on the requested side of the distribution,
 wherever it is centered

---
 timeseria/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 06f4bad..6454796 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -443,9 +443,9 @@ class DistributionFunction():
 
         start = self.params['loc']
         if side == 'right':
-            end = self.params['scale']*wideness
+            end = start + self.params['scale']*wideness
         elif side == 'left':
-            end = -(self.params['scale']*wideness)
+            end = start - self.params['scale']*wideness
         else:
             raise ValueError('unknown side "{}"'.format(side))
 
-- 
2.43.0


From 80219c37c8b6c8aa9e07683ba1e1404544a86fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:42 +0000
Subject: [PATCH 79/86] fix: write CSV files on the side, not to lose the
 previous one or leave an incomplete one if something goes wrong

---
 timeseria/storages.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 9749b96..8d7779d 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -2,6 +2,8 @@
 """Data storages, as the CSV file storage."""
 
 import os
+import uuid
+import shutil
 import pytz
 import numpy
 import datetime
@@ -808,7 +810,26 @@ class CSVFileStorage(Storage):
             if self.separator in label or label.startswith('__') or _sanitize_string(label, NO_DATA_PLACEHOLDERS) != label or not label:
                 raise ValueError('Cannot store the label "{}" in a CSV file'.format(label))
 
-        with open(self.filename, 'w', encoding=self.encoding if self.encoding else 'utf-8') as csv_file:
+        # Write the file on the side and put it in place only when completed, or something going wrong would leave
+        # an incomplete file in place of the one to overwrite (unless it is not a file at all, as a device or a pipe).
+        destination = os.path.realpath(self.filename)
+        if os.path.exists(destination) and not os.path.isfile(destination):
+            self._dump(series, series_type, data_labels, data_indexes, destination)
+            return
+        temporary = os.path.join(os.path.dirname(destination), '.{}.tmp'.format(uuid.uuid4().hex))
+        try:
+            self._dump(series, series_type, data_labels, data_indexes, temporary)
+            if os.path.exists(destination):
+                open(destination, 'a').close() # Still refuse to overwrite it if read-only
+                shutil.copymode(destination, temporary)
+            os.replace(temporary, destination)
+        finally:
+            if os.path.exists(temporary):
+                os.remove(temporary)
+
+
+    def _dump(self, series, series_type, data_labels, data_indexes, filename):
+        with open(filename, 'w', encoding=self.encoding if self.encoding else 'utf-8') as csv_file:
 
             # 0) Dump CSV-storage specific metadata
             csv_file.write('# Generated by Timeseria CSVFileStorage at {}\n'.format(now_dt()))
-- 
2.43.0


From a52a5a919427880d1a76fc0873bf0ea301dce599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:16 +0000
Subject: [PATCH 80/86] fix: never give the values to predict as context data,
 and require all of the context

---
 timeseria/models/base.py        | 7 +++++++
 timeseria/models/forecasters.py | 3 ++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index a0d83a1..dea5996 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -259,6 +259,13 @@ class Model():
             if 'context_data_labels' in self.data and self.data['context_data_labels'] and ('context_data' not in kwargs or not kwargs['context_data']):
                 raise ValueError('This model requires context data ({})'.format(self.data['context_data_labels']))
 
+            # Let only the context data in (i.e. not the values to predict, if given the data of an entire item), and all of it
+            if 'context_data' in kwargs and isinstance(kwargs['context_data'], dict) and kwargs['context_data']:
+                for data_label in self.data['context_data_labels']:
+                    if data_label not in kwargs['context_data']:
+                        raise ValueError('Missing "{}" in the context data'.format(data_label))
+                kwargs['context_data'] = {data_label: kwargs['context_data'][data_label] for data_label in self.data['context_data_labels']}
+
             # Call predict logic
             return predict_function(self, series, *args, **kwargs)
 
diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index ef13240..4318d35 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -124,7 +124,8 @@ class Forecaster(Model):
                 last_item = forecast[-1]
         else:
             if context_data:
-                predicted_data.update(context_data)
+                # Never replace what has been predicted
+                predicted_data = {**context_data, **predicted_data}
             if isinstance(series[0], Slot):
                 forecast = DataTimeSlot(start = forecast_start_item.end,
                                         unit  = series.resolution,
-- 
2.43.0


From 85a608f3794544e1ebfa7b528686dc304c140dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:27 +0000
Subject: [PATCH 81/86] fix: context data for models using Keras also on series
 of slots

---
 timeseria/models/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index dea5996..9beb3c4 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -14,7 +14,7 @@ import shutil
 from ..exceptions import NotFittedError
 from ..utilities import _check_timeseries, _check_resolution, _check_data_labels, _item_is_in_range
 from ..units import TimeUnit
-from ..datastructures import Point, Series, TimeSeries, TimeSeriesView
+from ..datastructures import Point, Slot, Series, TimeSeries, TimeSeriesView
 
 # Setup logging
 import logging
@@ -684,8 +684,11 @@ class _KerasModel(Model):
 
         # Handle context data if any (as "fake", context datapoint).
         if context_data:
-            context_datapoint_dt = window_datapoints[-1].dt + time_unit
-            context_datapoint = window_datapoints[-1].__class__(dt = context_datapoint_dt, data = context_data)
+            if isinstance(window_datapoints[-1], Slot):
+                context_datapoint = window_datapoints[-1].__class__(start = window_datapoints[-1].end, unit = time_unit, data = context_data)
+            else:
+                context_datapoint_dt = window_datapoints[-1].dt + time_unit
+                context_datapoint = window_datapoints[-1].__class__(dt = context_datapoint_dt, data = context_data)
             window_datapoints.append(context_datapoint)
 
         # Compute the features
-- 
2.43.0


From 6fe84bf11fc38131d008dce0b5506a9825de7143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:10 +0000
Subject: [PATCH 82/86] fix: start from scratch when fitting again LSTM
 forecasters

---
 timeseria/models/forecasters.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 4318d35..3d65a56 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -979,8 +979,10 @@ class LSTMForecaster(Forecaster, _KerasModel):
         features_per_window_item = len(window_features_matrix[0][0])
         output_dimension = len(target_values_vector[0])
 
-        # Create the default model architeture if not given in the init
-        if not self.keras_model:
+        # Create the default model architeture if not given in the init (and again for
+        # a new fit, or it would go on from the previous one instead of replacing it)
+        if not self.keras_model or self.data.get('default_architecture'):
+            self.data['default_architecture'] = True
             from keras.models import Sequential
             from keras.layers import Dense
             from keras.layers import LSTM
-- 
2.43.0


From 35d3241328e4b0f42404c7641e818e2cf9d452a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:25 +0000
Subject: [PATCH 83/86] fix: ARIMAForecaster works with the statsmodels
 versions required

---
 timeseria/models/forecasters.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 3d65a56..e214c59 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -709,7 +709,7 @@ class ARIMAForecaster(Forecaster, _ARIMAModel):
     @Forecaster.fit_function
     def fit(self, series, verbose=False):
 
-        import statsmodels.api as sm
+        from statsmodels.tsa.arima.model import ARIMA
 
         if len(series.data_labels()) > 1:
             raise Exception('Multivariate time series require to have the data_label of the prediction specified')
@@ -718,8 +718,8 @@ class ARIMAForecaster(Forecaster, _ARIMAModel):
         data = array(series.to_df()[data_label])
 
         # Save model and fit
-        self.model = sm.tsa.ARIMA(data, (self.p,self.d,self.q))
-        self.model_res = self.model.fit(disp=verbose)
+        self.model = ARIMA(data, order=(self.p,self.d,self.q))
+        self.model_res = self.model.fit(method_kwargs={'disp': verbose})
 
         # Save the series we used for the fit.
         self.fit_series = series
@@ -741,8 +741,8 @@ class ARIMAForecaster(Forecaster, _ARIMAModel):
         if self.fit_series_end_t != series[-1].t:
             raise NonContiguityError('Sorry, this model can be applied only on a time series ending with the same timestamp as the time series used for the fit.')
 
-        # Return the predicion. We need the [0] to access yhat, other indexes are erorrs etc.
-        return [{data_label: value} for value in self.model_res.forecast(steps)[0]]
+        # Return the predicion
+        return [{data_label: value} for value in self.model_res.forecast(steps)]
 
 
 #=========================
-- 
2.43.0


From e9a71bcf5fda9e782bf037cbd9ba67be7563facd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:32 +0000
Subject: [PATCH 84/86] fix: Prophet predictions assigned to the wrong items
 when moving out from the DST

---
 timeseria/models/forecasters.py    | 8 +++++---
 timeseria/models/reconstructors.py | 7 +++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index e214c59..d07b070 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -670,10 +670,12 @@ class ProphetForecaster(Forecaster, _ProphetModel):
         forecast = self.prophet_model.predict(dataframe_to_forecast)
         #forecast[['ds', 'yhat', 'yhat_lower', 'yhat_upper']].tail()
 
-        # Re arrange predict results
+        # Re arrange predict results. Prophet sorts them, and the order might not be the original one, as removing
+        # the timezone causes to go back in time when moving out from the DST, so they have to be matched.
+        yhat_by_ds = dict(zip(forecast['ds'], forecast['yhat']))
         forecasted_items = []
-        for i in range(steps):
-            forecasted_items.append({data_label: float(forecast['yhat'][i])})
+        for ds in data_to_forecast:
+            forecasted_items.append({data_label: float(yhat_by_ds[ds])})
 
         # Return
         return forecasted_items
diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index d974006..559ab03 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -548,9 +548,12 @@ class ProphetReconstructor(Reconstructor, _ProphetModel):
         forecast = self.prophet_model.predict(dataframe_to_reconstruct)
         #forecast[['ds', 'yhat', 'yhat_lower', 'yhat_upper']].tail()
 
+        # Prophet sorts the results, and the order might not be the original one, as removing the timezone
+        # causes to go back in time when moving out from the DST, so they have to be matched.
+        yhat_by_ds = dict(zip(forecast['ds'], forecast['yhat']))
         predicted_data = {data_label: []}
-        for j in range(0, to_i-from_i+1):
-            predicted_data[data_label].append(forecast['yhat'][j])
+        for ds in data_to_reconstruct:
+            predicted_data[data_label].append(yhat_by_ds[ds])
 
         return predicted_data
 
-- 
2.43.0


From e352a215770a25d43886eb538a3723f1195e0e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:51 +0000
Subject: [PATCH 85/86] fix: find the value with a given density with the same
 precision at any scale

---
 timeseria/utilities.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 6454796..d3d2a6f 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -441,18 +441,21 @@ class DistributionFunction():
     def find_x(self, y, wideness=1000, side='right'):
         # Note: "self" can be any function, we use this class as a callable here
 
-        start = self.params['loc']
+        # Search in units of the scale of the distribution, for the precision not to depend on it
         if side == 'right':
-            end = start + self.params['scale']*wideness
+            end = wideness
         elif side == 'left':
-            end = start - self.params['scale']*wideness
+            end = -wideness
         else:
             raise ValueError('unknown side "{}"'.format(side))
 
-        def scaled_gaussian(x):
-            return self(x)-y
+        def to_x(z):
+            return self.params['loc'] + self.params['scale']*z
 
-        x = optimize.bisect(scaled_gaussian, start, end)
+        def scaled_gaussian(z):
+            return self(to_x(z))-y
+
+        x = to_x(optimize.bisect(scaled_gaussian, 0, end))
 
         return x
 
-- 
2.43.0


From 30314c19f36ef40de29a480d57e916a0c341d82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:36 +0000
Subject: [PATCH 86/86] fix: load a whole file also if it is saved again in the
 meanwhile

---
 timeseria/datastructures.py | 39 ++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index c1d317f..084cbc9 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 """Base data structures as Points, Slots and Series."""
 
+import os
 import json
 from copy import copy, deepcopy
 from pandas import DataFrame, isna
@@ -1657,20 +1658,32 @@ class TimeSeries(Series):
                         metadata = json.loads(line.replace('# Extra parameters:',''))
                 else:
                     break
-        if not metadata:
-            raise ValueError('The file provided is not a Timeseria time series data file. Perhaps you wanted to use the from_csv() method?')
-
-        force_points = True if metadata['type'] == 'points' else False
-        force_slots = True if metadata['type'] == 'slots' else False
-        force_tz = metadata['tz']
-        if force_slots:
-            force_slot_unit = metadata['resolution']
-        else:
-            force_slot_unit = None
+            if not metadata:
+                raise ValueError('The file provided is not a Timeseria time series data file. Perhaps you wanted to use the from_csv() method?')
+
+            force_points = True if metadata['type'] == 'points' else False
+            force_slots = True if metadata['type'] == 'slots' else False
+            force_tz = metadata['tz']
+            if force_slots:
+                force_slot_unit = metadata['resolution']
+            else:
+                force_slot_unit = None
 
-        from .storages import CSVFileStorage
-        storage = CSVFileStorage(file_name, timestamp_column=0, timestamp_format='epoch')
-        loaded_series = storage.get(force_points=force_points, force_slots=force_slots, force_tz=force_tz, force_slot_unit=force_slot_unit)
+            # The storage opens the file again: if it is not the same anymore (as it has been
+            # saved again in the meanwhile) the metadata is not the right one, so start over.
+            def has_been_replaced():
+                return os.path.exists(file_name) and not os.path.samestat(os.fstat(f.fileno()), os.stat(file_name))
+
+            from .storages import CSVFileStorage
+            storage = CSVFileStorage(file_name, timestamp_column=0, timestamp_format='epoch')
+            try:
+                loaded_series = storage.get(force_points=force_points, force_slots=force_slots, force_tz=force_tz, force_slot_unit=force_slot_unit)
+            except Exception:
+                if not has_been_replaced():
+                    raise
+                return cls.load(file_name)
+            if has_been_replaced():
+                return cls.load(file_name)
 
         if loaded_series.__class__ == cls:
             return loaded_series
-- 
2.43.0

