From d2d88b9c6c56e2ba7ba16ee340ba9237e7ff9ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:09 +0000
Subject: [PATCH 01/62] fix: report mixed naive/aware timespans as ValueError

The begin and end times were compared before checking that both or none have
a timezone, so the intended ValueError was shadowed by a TypeError.
---
 src/ics/timespan.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index fee1f42..dadbac7 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -243,6 +243,16 @@ class Timespan:
 
             if self.end_time is not None:
                 validate_timeprecision(self.end_time, self._end_name())
+                if self.begin_time.tzinfo is None and self.end_time.tzinfo is not None:
+                    raise ValueError(
+                        self._end_name()
+                        + " time may not have a timezone as the begin time doesn't either"
+                    )
+                if self.begin_time.tzinfo is not None and self.end_time.tzinfo is None:
+                    raise ValueError(
+                        self._end_name()
+                        + " time must have a timezone as the begin time also does"
+                    )
                 if self.begin_time > self.end_time:
                     raise ValueError(
                         "begin time must be before " + self._end_name() + " time"
@@ -257,16 +267,6 @@ class Timespan:
                     raise ValueError(
                         "can't set duration together with " + self._end_name() + " time"
                     )
-                if self.begin_time.tzinfo is None and self.end_time.tzinfo is not None:
-                    raise ValueError(
-                        self._end_name()
-                        + " time may not have a timezone as the begin time doesn't either"
-                    )
-                if self.begin_time.tzinfo is not None and self.end_time.tzinfo is None:
-                    raise ValueError(
-                        self._end_name()
-                        + " time must have a timezone as the begin time also does"
-                    )
                 duration = self.get_effective_duration()
                 if duration and not timedelta_nearly_zero(
                     duration % TIMEDELTA_CACHE[self.precision]
-- 
2.43.0


From 3972f5d816c554786c73b32367632fa0794a5a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 02/62] fix: unset_all_day must use the existing "second"
 precision

---
 src/ics/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/event.py b/src/ics/event.py
index d3a8d3c..71c58a2 100644
--- a/src/ics/event.py
+++ b/src/ics/event.py
@@ -172,7 +172,7 @@ class CalendarEntryAttrs(Component):
         self.timespan = self.timespan.make_all_day()
 
     def unset_all_day(self):
-        self.timespan = self.timespan.replace(precision="seconds")
+        self.timespan = self.timespan.replace(precision="second")
 
     @property
     def floating(self) -> bool:
-- 
2.43.0


From acca2d881e7dc3b32d39aaff40205fe0a6e0a4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 03/62] fix: interval relations of todos raised AttributeError

Reversing the timespan_tuple of todos dropped its field names (and swapped begin
and due), although only the comparison order of todos should be reversed.
---
 src/ics/timespan.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index dadbac7..72cefc4 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -602,10 +602,7 @@ class TodoTimespan(Timespan):
     def _end_name(self):
         return "due"
 
-    def timespan_tuple(self, default=None, normalization=None):
+    def cmp_tuple(self):
         # Todos compare by (due, begin) instead of (begin, end)
-        return tuple(
-            reversed(
-                super().timespan_tuple(default=default, normalization=normalization)
-            )
-        )
+        begin, due = super().cmp_tuple()
+        return due, begin
-- 
2.43.0


From de8c3d29b23e94d4ee94e7c2292036f270dacd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 04/62] fix: CustomAlarm wrote its ACTION twice

The duplicated property made the own output unparsable.
---
 src/ics/alarm.py                   | 3 ++-
 src/ics/converter/types/various.py | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ics/alarm.py b/src/ics/alarm.py
index 234f103..eda17f3 100644
--- a/src/ics/alarm.py
+++ b/src/ics/alarm.py
@@ -63,7 +63,8 @@ class CustomAlarm(BaseAlarm):
     A calendar event VALARM with custom ACTION.
     """
 
-    _action: str = attr.ib(default=None)
+    # handled by the AlarmActionConverter
+    _action: str = attr.ib(default=None, metadata={"ics_ignore": True})
 
     @property
     def action(self):
diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 90f4466..4321b10 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -112,6 +112,8 @@ class AlarmActionConverter(GenericConverter):
     ) -> bool:
         assert isinstance(item, ContentLine)
         assert issubclass(type(component), get_type_from_action(item.value))
+        if isinstance(component, CustomAlarm):
+            component._action = item.value
         if item.params:
             component.extra_params["ACTION"] = copy_extra_params(item.params)
         return True
@@ -121,7 +123,9 @@ class AlarmActionConverter(GenericConverter):
         output.append(
             ContentLine(
                 name="ACTION",
-                params=cast(ExtraParams, component.extra_params.get("ACTION", {})),
+                params=copy_extra_params(
+                    cast(ExtraParams, component.extra_params.get("ACTION", {}))
+                ),
                 value=component.action,
             )
         )
-- 
2.43.0


From f6dc0f189f5937e9a1ec21659701e74a42ed4d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 05/62] fix: Component.clone lost extra properties and params

---
 src/ics/component.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ics/component.py b/src/ics/component.py
index e102983..8a48f71 100644
--- a/src/ics/component.py
+++ b/src/ics/component.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from typing import ClassVar, Dict, List, Optional, Type, TypeVar, Union
 
 import attr
@@ -96,4 +97,7 @@ class Component(RuntimeAttrValidation):
     def clone(self):
         """Returns an exact (shallow) copy of self"""
         # TODO deep copies?
-        return attr.evolve(self)
+        new = attr.evolve(self)
+        object.__setattr__(new, "extra", self.extra.clone())
+        object.__setattr__(new, "extra_params", deepcopy(self.extra_params))
+        return new
-- 
2.43.0


From be564471254c2e0ff43cc78cd6eb0f51eb4d8ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 06/62] fix: don't split ATTACH and ATTENDEE URIs at commas

---
 src/ics/valuetype/generic.py | 6 +++++-
 src/ics/valuetype/special.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ics/valuetype/generic.py b/src/ics/valuetype/generic.py
index f6555a6..cd03f45 100644
--- a/src/ics/valuetype/generic.py
+++ b/src/ics/valuetype/generic.py
@@ -1,5 +1,5 @@
 import base64
-from typing import Type, Union
+from typing import Iterable, Type, Union
 from urllib.parse import urlparse
 
 from ics.types import URL, ContextDict, EmptyContext, EmptyParams, ExtraParams
@@ -164,6 +164,10 @@ class URIConverterClass(ValueConverter[URL]):
     def python_type(self) -> Type[URL]:
         return URL
 
+    def split_value_list(self, values: str) -> Iterable[str]:
+        # a comma is an ordinary character of an URI and no separator
+        yield values
+
     def parse(
         self,
         value: str,
diff --git a/src/ics/valuetype/special.py b/src/ics/valuetype/special.py
index 11905c9..f0e4207 100644
--- a/src/ics/valuetype/special.py
+++ b/src/ics/valuetype/special.py
@@ -1,5 +1,5 @@
 import abc
-from typing import Generic, Type, TypeVar, Union, cast
+from typing import Generic, Iterable, Type, TypeVar, Union, cast
 from urllib.parse import urlparse
 
 from ics import Attendee, Organizer
@@ -46,6 +46,10 @@ P = TypeVar("P", bound=Person)
 
 
 class PersonConverter(Generic[P], ValueConverter[P], abc.ABC):
+    def split_value_list(self, values: str) -> Iterable[str]:
+        # a comma is an ordinary character of an URI and no separator
+        yield values
+
     def parse(
         self,
         value: str,
-- 
2.43.0


From 93a709068213fc35bd4fa098ab98c78ecf9aa441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 07/62] fix: extra params of DTEND were lost when serializing

---
 src/ics/converter/types/timespan.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index f74ef71..4e091ee 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -125,7 +125,9 @@ class TimespanConverter(AttributeConverter):
         if value.get_end_representation() == "end":
             end_name = {"end": "DTEND", "due": "DUE"}[value._end_name()]
             params = copy_extra_params(
-                cast(ExtraParams, self.get_extra_params(component, end_name))
+                cast(
+                    ExtraParams, self.get_extra_params(component, value._end_name())
+                )
             )
             params.update(value_type)
             dt_value = dt_conv.serialize(value.get_effective_end(), params, context)
-- 
2.43.0


From dd0c6ea2504de2a4cb5e121ae956aaed11a9b544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 08/62] fix: accept the STATUS values defined for todos

---
 src/ics/event.py | 3 ++-
 src/ics/todo.py  | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ics/event.py b/src/ics/event.py
index 71c58a2..9abf587 100644
--- a/src/ics/event.py
+++ b/src/ics/event.py
@@ -60,7 +60,7 @@ class CalendarEntryAttrs(Component):
     description: Optional[str] = attr.ib(default=None)
     location: Optional[str] = attr.ib(default=None)
     url: Union[None, str, URL] = attr.ib(default=None)
-    status: Optional[str] = attr.ib(default=None, converter=c_optional(str.upper), validator=in_(STATUS_VALUES))  # type: ignore[misc]
+    status: Optional[str] = attr.ib(default=None, converter=c_optional(str.upper), validator=lambda inst, attr, value: in_(inst._STATUS_VALUES)(inst, attr, value))  # type: ignore[misc]
 
     created: Optional[datetime] = attr.ib(default=None, converter=ensure_utc)  # type: ignore[misc]
     last_modified: Optional[datetime] = attr.ib(default=None, converter=ensure_utc)  # type: ignore[misc]
@@ -71,6 +71,7 @@ class CalendarEntryAttrs(Component):
 
     # this is overridden by subclasses and then read by the Timespan converter to instantiate an object of the right subclass
     _TIMESPAN_TYPE: ClassVar[Type[Timespan]] = Timespan
+    _STATUS_VALUES: ClassVar[Tuple[Optional[str], ...]] = STATUS_VALUES
 
     def __init_subclass__(cls):
         super().__init_subclass__()
diff --git a/src/ics/todo.py b/src/ics/todo.py
index 0843456..db29246 100644
--- a/src/ics/todo.py
+++ b/src/ics/todo.py
@@ -9,11 +9,12 @@ import attr
 from attr.validators import in_
 from attr.validators import optional as v_optional
 
-from ics.event import CalendarEntryAttrs
+from ics.event import STATUS_VALUES, CalendarEntryAttrs
 from ics.timespan import Timespan, TodoTimespan
 from ics.types import DatetimeLike, TimedeltaLike
 from ics.utils import ensure_datetime, ensure_timedelta
 
+TODO_STATUS_VALUES = (*STATUS_VALUES, "NEEDS-ACTION", "COMPLETED", "IN-PROCESS")
 MAX_PERCENT = 100
 MAX_PRIORITY = 9
 
@@ -38,6 +39,7 @@ class Todo(TodoAttrs):
 
     NAME = "VTODO"
     _TIMESPAN_TYPE: ClassVar[Type[Timespan]] = TodoTimespan
+    _STATUS_VALUES = TODO_STATUS_VALUES
 
     def __init__(
         self,
-- 
2.43.0


From 20c904731245e6ed319e4ef4984233d65325930f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 09/62] fix: pad years before 1000 to four digits when
 serializing

---
 src/ics/valuetype/datetime.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 608de27..ee951b6 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -41,6 +41,10 @@ class DatetimeConverterMixin:
         utc_fmt="%Y%m%dT%H%M%SZ",
         nonutc_fmt="%Y%m%dT%H%M%S",
     ) -> str:
+        if isinstance(value, date):
+            # strftime doesn't pad years before 1000
+            utc_fmt = utc_fmt.replace("%Y", f"{value.year:04}")
+            nonutc_fmt = nonutc_fmt.replace("%Y", f"{value.year:04}")
         if is_utc(value):
             return value.strftime(utc_fmt)
 
@@ -180,7 +184,8 @@ class DateConverterClass(DatetimeConverterMixin, ValueConverter[date]):
         params: ExtraParams = EmptyParams,
         context: ContextDict = EmptyContext,
     ):
-        return value.strftime("%Y%m%d")
+        # strftime doesn't pad years before 1000
+        return f"{value.year:04}" + value.strftime("%m%d")
 
     def parse(
         self,
-- 
2.43.0


From 0842dedf33c1818ed68e4bb436de8edf07a6515f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:12 +0000
Subject: [PATCH 10/62] fix: Timezone cache mixed up the two folds of ambiguous
 times

The offset returned for an ambiguous local time depended on which of its folds
was queried first, as datetimes differing only in fold are equal.
---
 src/ics/timezone/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index fe8b500..069b0d7 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -186,14 +186,17 @@ class Timezone(Component, _tzinfo):
         if len(self.observances) < 2:
             return self.observances[0]
 
-        return self._find_observance_cachable(dt.replace(tzinfo=None))
+        # datetimes that only differ in fold are equal, so fold needs to be part of the cache key
+        return self._find_observance_cachable(
+            dt.replace(tzinfo=None), getattr(dt, "fold", 0)
+        )
 
-    def _find_observance_cachable(self, dt):
+    def _find_observance_cachable(self, dt, fold):
         # adapted from dateutil.tz.tz._tzicalvtz._find_comp
 
         lastcompdt = lastcomp = None
         for comp in self.observances:
-            if comp.tzoffsetdiff < TIMEDELTA_ZERO and getattr(dt, "fold", 0):
+            if comp.tzoffsetdiff < TIMEDELTA_ZERO and fold:
                 compdt = comp.rrule.before(dt - comp.tzoffsetdiff, inc=True)
             else:
                 compdt = comp.rrule.before(dt, inc=True)
-- 
2.43.0


From 0ba5a123b6233979382f6b1546e53da91887a5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:12 +0000
Subject: [PATCH 11/62] fix: adjacent timespans don't intersect

The end instant isn't part of a timespan, but timespans ending right when the
other one starts were still reported as intersecting. This e.g. made
Timeline.on(day) return the all-day events of the previous and the next day.
---
 src/ics/timespan.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index 72cefc4..28f1784 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -511,9 +511,7 @@ class Timespan:
         # the timespan doesn't include its end instant / day
         return (
             second.begin <= first.begin < second.end
-            or second.begin <= first.end < second.end
             or first.begin <= second.begin < first.end
-            or first.begin <= second.end < first.end
         )
 
     def includes(self, other: Union["Timespan", datetime]) -> bool:
-- 
2.43.0


From 19f144c2521e4f101359d5fe6ab4647001e4367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:13 +0000
Subject: [PATCH 12/62] fix: Timeline.start_after with mixed naive and aware
 times

Use the same normalization as all other comparisons instead of raising a
TypeError.
---
 src/ics/timeline.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ics/timeline.py b/src/ics/timeline.py
index f6d8bcb..a8623f4 100644
--- a/src/ics/timeline.py
+++ b/src/ics/timeline.py
@@ -5,7 +5,7 @@ from typing import TYPE_CHECKING, Iterable, Iterator, Optional, Tuple
 import attr
 
 from ics.event import Event
-from ics.timespan import Normalization, Timespan
+from ics.timespan import CMP_NORMALIZATION, Normalization, Timespan
 from ics.types import DatetimeLike, OptionalDatetimeLike, TimespanOrBegin
 from ics.utils import (
     ceil_datetime_to_midnight,
@@ -112,9 +112,12 @@ class Timeline:
         Iterates (in chronological order) on every event from the :class:`ics.icalendar.Calendar` in chronological order.
         The first event of the iteration has a starting date greater (later) than `instant`.
         """
-        instant = self.__normalize_datetime(instant)
+        instant = CMP_NORMALIZATION.normalize(self.__normalize_datetime(instant))
         for timespan, event in self.iterator():
-            if timespan.begin_time is not None and timespan.begin_time > instant:
+            if (
+                timespan.begin_time is not None
+                and CMP_NORMALIZATION.normalize(timespan.begin_time) > instant
+            ):
                 yield event
 
     def at(self, instant: DatetimeLike) -> Iterator[Event]:
-- 
2.43.0


From 68d1e3a1777612dbaba2beece45ae5c25ec0a6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:13 +0000
Subject: [PATCH 13/62] fix: Timeline.now interpreted the current UTC time as
 local time

---
 src/ics/timeline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ics/timeline.py b/src/ics/timeline.py
index a8623f4..c5cb3f8 100644
--- a/src/ics/timeline.py
+++ b/src/ics/timeline.py
@@ -155,4 +155,5 @@ class Timeline:
         """
         Iterates (in chronological order) over all events that occur right now.
         """
-        return self.at(datetime.utcnow())
+        # floating times (like all times passed to at) are interpreted as local time
+        return self.at(datetime.now())
-- 
2.43.0


From 541c2fca42b3ee8f13abb240546d1c738477ee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:13 +0000
Subject: [PATCH 14/62] fix: Timeline.on covered two days within the last
 second of a day

---
 src/ics/timeline.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/ics/timeline.py b/src/ics/timeline.py
index c5cb3f8..8901a07 100644
--- a/src/ics/timeline.py
+++ b/src/ics/timeline.py
@@ -1,5 +1,5 @@
 import heapq
-from datetime import date, datetime, timedelta
+from datetime import date, datetime
 from typing import TYPE_CHECKING, Iterable, Iterator, Optional, Tuple
 
 import attr
@@ -7,11 +7,7 @@ import attr
 from ics.event import Event
 from ics.timespan import CMP_NORMALIZATION, Normalization, Timespan
 from ics.types import DatetimeLike, OptionalDatetimeLike, TimespanOrBegin
-from ics.utils import (
-    ceil_datetime_to_midnight,
-    ensure_datetime,
-    floor_datetime_to_midnight,
-)
+from ics.utils import TIMEDELTA_DAY, ensure_datetime, floor_datetime_to_midnight
 
 if TYPE_CHECKING:
     from ics.icalendar import Calendar
@@ -136,7 +132,7 @@ class Timeline:
         :param strict: if True events will be returned only if they are strictly *included* in `day`
         """
         begin = floor_datetime_to_midnight(ensure_datetime(instant))
-        end = ceil_datetime_to_midnight(ensure_datetime(instant) + timedelta(seconds=1))
+        end = begin + TIMEDELTA_DAY
         query = self.__normalize_timespan(begin, end)
         if strict:
             return self.included(query)
-- 
2.43.0


From 7bacf9dc63c76e77e354d233766f11fe7b261791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:13 +0000
Subject: [PATCH 15/62] fix: Container kept invalid items although rejecting
 them

extend and __setitem__ only validated the items after storing them.
---
 src/ics/contentline/container.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index 3e64b04..f71cccb 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -284,8 +284,9 @@ class Container(MutableSequence[ContainerItem]):
         self.data.append(value)
 
     def extend(self, values):
+        values = list(values)
+        self.check_items(*values)
         self.data.extend(values)
-        attr.validate(self)
 
     def __getitem__(self, i):
         if isinstance(i, str):
@@ -304,8 +305,12 @@ class Container(MutableSequence[ContainerItem]):
     def __setitem__(
         self, index, value
     ):  # index might be slice and value might be iterable
+        if isinstance(index, slice):
+            value = list(value)
+            self.check_items(*value)
+        else:
+            self.check_items(value)
         self.data.__setitem__(index, value)
-        attr.validate(self)
 
     __contains__ = _wrap_list_func(list.__contains__)
     __iter__ = _wrap_list_func(list.__iter__)
-- 
2.43.0


From 2517c21d0cdc44709d905313f84b8b5eca4a90e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:13 +0000
Subject: [PATCH 16/62] fix: quote empty param values, as they are unparsable
 otherwise

---
 src/ics/contentline/container.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index f71cccb..2a24b19 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -177,7 +177,12 @@ class ContentLine(RuntimeAttrValidation):
             for nr, pval in enumerate(self.params[pname]):
                 if nr > 0:
                     yield ","
-                if isinstance(pval, QuotedParamValue) or re.search("[:;,]", pval):
+                if (
+                    isinstance(pval, QuotedParamValue)
+                    or not pval
+                    or re.search("[:;,]", pval)
+                ):
+                    # Empty values are only understood by the parser if they are quoted.
                     # Property parameter values that contain the COLON, SEMICOLON, or COMMA character separators
                     # MUST be specified as quoted-string text values.
                     # TODO The DQUOTE character is used as a delimiter for parameter values that contain
-- 
2.43.0


From 5ae664034086095ce9c4c153871cbb5b76b92d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:13 +0000
Subject: [PATCH 17/62] fix: iterating a Calendar split lines at unicode
 newlines within values

---
 src/ics/icalendar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ics/icalendar.py b/src/ics/icalendar.py
index 2000a7b..0a5675c 100644
--- a/src/ics/icalendar.py
+++ b/src/ics/icalendar.py
@@ -1,3 +1,4 @@
+import re
 from datetime import tzinfo
 from typing import ClassVar, Iterable, Iterator, List, Optional, Union, overload
 
@@ -163,4 +164,5 @@ class Calendar(CalendarAttrs):
             >>> c = Calendar(); c.events.append(Event(summary="My cool event"))
             >>> open('my.ics', 'w').writelines(c)
         """
-        return iter(self.serialize().splitlines(keepends=True))
+        # str.splitlines would also split at unicode newlines within values
+        return iter(re.findall(r".*?\r\n|.+$", self.serialize(), re.DOTALL))
-- 
2.43.0


From 96689cb8b974853a10a688fd44894f2b1ad1e0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:14 +0000
Subject: [PATCH 18/62] fix: validation of subclasses used the fields of the
 parent class

Once an instance of the parent class had been modified, the cached fields were
inherited by subclasses and their own fields were no longer validated.
---
 src/ics/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ics/types.py b/src/ics/types.py
index 6575f00..81975fc 100644
--- a/src/ics/types.py
+++ b/src/ics/types.py
@@ -126,7 +126,8 @@ class RuntimeAttrValidation:
     def __setattr__(self, key, value):
         if getattr(self, "__post_init__", None):
             cls = self.__class__  # type: Any
-            if not getattr(cls, "__attr_fields__", None):
+            # don't use fields cached for a parent class
+            if "__attr_fields__" not in cls.__dict__:
                 cls.__attr_fields__ = attr.fields_dict(cls)
             try:
                 field = cls.__attr_fields__[key]
-- 
2.43.0


From 2f6bb3689b6d8c7e77503a737f4511b3220c6701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:14 +0000
Subject: [PATCH 19/62] fix: AttributeError for dateutil timezones without
 vTimezone

---
 src/ics/timezone/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/timezone/converters.py b/src/ics/timezone/converters.py
index 03933fb..9402f99 100644
--- a/src/ics/timezone/converters.py
+++ b/src/ics/timezone/converters.py
@@ -142,7 +142,7 @@ def Timezone_from_dateutil(tzinfo: datetime.tzinfo) -> Union[Timezone, TimezoneR
         return TimezoneResult.LOCAL  # tzinfo._tznames
     elif isinstance(tzinfo, dateutil.tz.tzstr):
         return TimezoneResult.NOT_IMPLEMENTED
-    elif isinstance(tzinfo, (dateutil.tz.tzical, dateutil.tz._tzicalvtz)):  # type: ignore[attr-defined]
+    elif isinstance(tzinfo, (dateutil.tz.tzical, dateutil.tz.tz._tzicalvtz)):  # type: ignore[attr-defined]
         return TimezoneResult.NOT_IMPLEMENTED
     elif isinstance(tzinfo, dateutil.tz.tzrange):
         return TimezoneResult.NOT_IMPLEMENTED
-- 
2.43.0


From 981420ba1da186c76867d78fe6091b8914d35d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:14 +0000
Subject: [PATCH 20/62] fix: malformed durations raised IndexError instead of
 ValueError

---
 src/ics/valuetype/datetime.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index ee951b6..caeb4bb 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -312,11 +312,11 @@ class DurationConverterClass(ValueConverter[timedelta]):
         SECS = {"S": 1, "M": 60, "H": 3600}
 
         sign, i = 1, 0
-        if value[i] in "-+":
+        if value[:1] in ("-", "+"):
             if value[i] == "-":
                 sign = -1
             i += 1
-        if value[i] != "P":
+        if value[i : i + 1] != "P":
             raise ValueError(f"Error while parsing {value}")
         i += 1
         days, secs = 0, 0
@@ -326,9 +326,9 @@ class DurationConverterClass(ValueConverter[timedelta]):
                 if i == len(value):
                     break
             j = i
-            while value[j].isdigit():
+            while value[j : j + 1].isdigit():
                 j += 1
-            if i == j:
+            if i == j or j == len(value):
                 raise ValueError(f"Error while parsing {value}")
             val = int(value[i:j])
             if value[j] in DAYS:
-- 
2.43.0


From 934e8b812200179ce9d5c6574d484c60b9fb3cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:14 +0000
Subject: [PATCH 21/62] fix: is_utc didn't recognize times in UTC

---
 src/ics/timezone/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index 069b0d7..e5ff59a 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -60,7 +60,7 @@ def is_utc(value: datetime.tzinfo) -> bool:
 
 
 def is_utc(value):
-    if isinstance(value, datetime.datetime):
+    if isinstance(value, (datetime.datetime, datetime.time)):
         tz = value.tzinfo
     else:
         tz = value
-- 
2.43.0


From 755f98cf143f8722552b91f6728c50525be9134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:14 +0000
Subject: [PATCH 22/62] fix: converting datetimes with timezone failed without
 a context

---
 src/ics/valuetype/datetime.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index caeb4bb..31cba8b 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -53,7 +53,8 @@ class DatetimeConverterMixin:
             if tz is not None:
                 params["TZID"] = [tz.tzid]
                 available_tz = context.setdefault(self.CONTEXT_KEY_AVAILABLE_TZ, {})
-                available_tz.setdefault(tz.tzid, tz)
+                if available_tz is not None:
+                    available_tz.setdefault(tz.tzid, tz)
         return value.strftime(nonutc_fmt)
 
     def _parse_dt(
@@ -127,7 +128,8 @@ class DatetimeConverterMixin:
                             )
                         )
                     selected_tz = found_tz
-                available_tz.setdefault(param_tz, selected_tz)
+                if available_tz is not None:
+                    available_tz.setdefault(param_tz, selected_tz)
             return dt.replace(tzinfo=selected_tz)
         else:
             return dt
-- 
2.43.0


From b0a2a3728eafe39565383323940490e92fc87fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:46 +0000
Subject: [PATCH 23/62] fix: param names are case-insensitive

A lower-case tzid param was ignored, silently turning the value into a floating
time.
---
 src/ics/converter/types/timespan.py | 3 ++-
 src/ics/converter/value.py          | 3 ++-
 src/ics/types.py                    | 6 +++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index 4e091ee..3ccdc68 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -43,7 +43,8 @@ class TimespanConverter(AttributeConverter):
             raise ValueError(f"duplicate value for {item.name} in {item}")
         seen_items.add(item.name)
 
-        params = copy_extra_params(item.params)
+        # param names are case-insensitive
+        params = copy_extra_params(item.params, upper_names=True)
         if item.name in ["DTSTART", "DTEND", "DUE"]:
             value_type = params.pop("VALUE", ["DATE-TIME"])
             if value_type == ["DATE-TIME"]:
diff --git a/src/ics/converter/value.py b/src/ics/converter/value.py
index dee71f5..b3d818c 100644
--- a/src/ics/converter/value.py
+++ b/src/ics/converter/value.py
@@ -90,7 +90,8 @@ class AttributeValueConverter(AttributeConverter):
     # TODO better handling of multi-type attributes, maybe try all available converters if no direct candidate was found / worked
 
     def __prepare_params(self, line: ContentLine) -> Tuple[ExtraParams, ValueConverter]:
-        params = copy_extra_params(line.params)
+        # param names are case-insensitive
+        params = copy_extra_params(line.params, upper_names=True)
         value_type = params.pop("VALUE", None)
         if value_type:
             if len(value_type) != 1:
diff --git a/src/ics/types.py b/src/ics/types.py
index 81975fc..fca5f6b 100644
--- a/src/ics/types.py
+++ b/src/ics/types.py
@@ -169,11 +169,15 @@ ContextDict = NewType("ContextDict", Dict[Any, Any])  # defaultdict(lambda: None
 EmptyContext = cast("ContextDict", EmptyDict)
 
 
-def copy_extra_params(old: Optional[ExtraParams]) -> ExtraParams:
+def copy_extra_params(
+    old: Optional[ExtraParams], upper_names: bool = False
+) -> ExtraParams:
     new: ExtraParams = ExtraParams(dict())
     if not old:
         return new
     for key, value in old.items():
+        if upper_names:
+            key = key.upper()
         if isinstance(value, str):
             new[key] = value
         elif isinstance(value, list):
-- 
2.43.0


From e6490939be3a07a5bb705f66280f9ae6cd201d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 24/62] fix: write the required DTSTART of timezone observances
 without RRULE

---
 src/ics/converter/types/various.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 4321b10..a68ee65 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -72,6 +72,12 @@ class RecurrenceConverter(AttributeConverter):
                 dt_value = DatetimeConverter.serialize(rrule._dtstart, context=context)
                 output.append(ContentLine(name="DTSTART", value=dt_value))
 
+        if value._rdate and not context["DTSTART"]:
+            # DTSTART is also required if there's no rrule and is the first of all recurrences
+            context["DTSTART"] = dtstart = min(value._rdate)
+            dt_value = DatetimeConverter.serialize(dtstart, context=context)
+            output.append(ContentLine(name="DTSTART", value=dt_value))
+
         for rrule in value._rrule:
             output.append(rrule_to_ContentLine(rrule))
         for exrule in value._exrule:
-- 
2.43.0


From bf0283b8be7653c95dc4df661d0eb3018520d1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 25/62] fix: support timezone observances with UTC UNTIL times

RFC 5545 requires the UNTIL of their RRULEs to be in UTC, but such a VTIMEZONE
(and thus the whole calendar) couldn't be parsed and was never generated.
---
 src/ics/converter/types/various.py | 47 +++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index a68ee65..543621a 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -1,5 +1,7 @@
 import itertools
 import operator
+import re
+from datetime import datetime, timedelta
 from typing import TYPE_CHECKING, Iterable, List, Optional, cast
 
 import attr
@@ -28,6 +30,36 @@ def unique_justseen(iterable, key=None):
     return map(next, map(operator.itemgetter(1), itertools.groupby(iterable, key)))
 
 
+def get_tzoffsetfrom(component: Component) -> Optional[timedelta]:
+    try:
+        return component.tzoffsetfrom  # type: ignore[attr-defined]
+    except (AttributeError, KeyError):
+        return None  # not a timezone observance
+
+
+def convert_until(line: ContentLine, tzoffsetfrom: Optional[timedelta], to_utc: bool):
+    """
+    The UNTIL of timezone observances is given in UTC, while all their other times are local times.
+    Converts the value of an RRULE between this representation and the all-local one required by dateutil.
+    """
+
+    def convert(match):
+        until = datetime.strptime(match.group(1).upper(), "%Y%m%dT%H%M%S")
+        try:
+            until += -tzoffsetfrom if to_utc else tzoffsetfrom
+        except OverflowError:
+            pass  # practically unlimited
+        return DatetimeConverter.serialize(until) + ("Z" if to_utc else "")
+
+    if tzoffsetfrom is not None:
+        line.value = re.sub(
+            r"(?<=UNTIL=)(\d{8}T\d{6})" + ("" if to_utc else "Z") + "(?=;|$)",
+            convert,
+            line.value,
+            flags=re.IGNORECASE,
+        )
+
+
 class RecurrenceConverter(AttributeConverter):
     @property
     def filter_ics_names(self) -> List[str]:
@@ -45,9 +77,12 @@ class RecurrenceConverter(AttributeConverter):
         return True
 
     def post_populate(self, component: Component, context: ContextDict):
-        lines_str = "".join(
-            line.serialize(newline=True) for line in context.pop((self, "lines"))
-        )
+        tzoffsetfrom = get_tzoffsetfrom(component)
+        lines = [line.clone() for line in context.pop((self, "lines"))]
+        for line in lines:
+            if line.name in ("RRULE", "EXRULE"):
+                convert_until(line, tzoffsetfrom, to_utc=False)
+        lines_str = "".join(line.serialize(newline=True) for line in lines)
         # TODO only feed dateutil the params it likes, add the rest as extra
         tzinfos = context.get(DatetimeConverterMixin.CONTEXT_KEY_AVAILABLE_TZ, {})
         rrule = dateutil.rrule.rrulestr(lines_str, tzinfos=tzinfos, compatible=True)
@@ -57,6 +92,7 @@ class RecurrenceConverter(AttributeConverter):
 
     def serialize(self, component: Component, output: Container, context: ContextDict):
         value = self.get_value(component)
+        tzoffsetfrom = get_tzoffsetfrom(component)
         if not TYPE_CHECKING:
             assert isinstance(value, dateutil.rrule.rruleset)
         for rrule in itertools.chain(value._rrule, value._exrule):
@@ -79,9 +115,12 @@ class RecurrenceConverter(AttributeConverter):
             output.append(ContentLine(name="DTSTART", value=dt_value))
 
         for rrule in value._rrule:
-            output.append(rrule_to_ContentLine(rrule))
+            cl = rrule_to_ContentLine(rrule)
+            convert_until(cl, tzoffsetfrom, to_utc=True)
+            output.append(cl)
         for exrule in value._exrule:
             cl = rrule_to_ContentLine(exrule)
+            convert_until(cl, tzoffsetfrom, to_utc=True)
             cl.name = "EXRULE"
             output.append(cl)
         for rdate in unique_justseen(sorted(value._rdate)):
-- 
2.43.0


From 87a8b6d5d2c9dbab8e85a5a0bca6411c8d879bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 26/62] fix: observances without any onset raised KeyError
 instead of ValueError

---
 src/ics/converter/types/various.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 543621a..4ba92bb 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -78,7 +78,7 @@ class RecurrenceConverter(AttributeConverter):
 
     def post_populate(self, component: Component, context: ContextDict):
         tzoffsetfrom = get_tzoffsetfrom(component)
-        lines = [line.clone() for line in context.pop((self, "lines"))]
+        lines = [line.clone() for line in context.pop((self, "lines"), None) or []]
         for line in lines:
             if line.name in ("RRULE", "EXRULE"):
                 convert_until(line, tzoffsetfrom, to_utc=False)
-- 
2.43.0


From 609033ed5578b758738a95e0373f80ca9a9ca5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:45 +0000
Subject: [PATCH 27/62] fix: empty date or time values raised IndexError
 instead of ValueError

---
 src/ics/valuetype/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 31cba8b..158a833 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -78,7 +78,7 @@ class DatetimeConverterMixin:
             warnings.warn(
                 "DatetimeConverterMixin.parse called without available_tz dict in context"
             )
-        fixed_utc = value[-1].upper() == "Z"
+        fixed_utc = value[-1:].upper() == "Z"
 
         tr_value = value.translate(
             {ord("/"): "", ord("-"): "", ord("Z"): "", ord("z"): ""}
-- 
2.43.0


From d6952b92e6fa85c63cfe97d98e5a1af384866468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:45 +0000
Subject: [PATCH 28/62] fix: PERIOD values with begin and end time couldn't be
 parsed

---
 src/ics/valuetype/datetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 158a833..19a8026 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -381,6 +381,8 @@ DurationConverter = DurationConverterClass()
 
 
 class PeriodConverterClass(DatetimeConverterMixin, ValueConverter[Timespan]):
+    FORMATS = DatetimeConverterClass.FORMATS
+
     @property
     def ics_type(self) -> str:
         return "PERIOD"
-- 
2.43.0


From b56f31162f91c6cd6095275b1ab5acb924cd6191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:44 +0000
Subject: [PATCH 29/62] fix: entries read without any times had no precision

---
 src/ics/converter/types/timespan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index 3ccdc68..b03ae95 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -85,7 +85,7 @@ class TimespanConverter(AttributeConverter):
             ensure_datetime(context[CONTEXT_BEGIN_TIME]),
             ensure_datetime(context[CONTEXT_END_TIME]),
             context[CONTEXT_DURATION],
-            context[CONTEXT_PRECISION],
+            context[CONTEXT_PRECISION] or "second",
         )
         # missing values will be reported by the Timespan validator
         if (
-- 
2.43.0


From 16a00591aab4fadeb7287a241a4355cc5b1ae754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:03 +0000
Subject: [PATCH 30/62] fix: timezone recurrence rules without DTSTART started
 at the current time

---
 src/ics/converter/types/various.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 4ba92bb..2b0e5b6 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -79,6 +79,10 @@ class RecurrenceConverter(AttributeConverter):
     def post_populate(self, component: Component, context: ContextDict):
         tzoffsetfrom = get_tzoffsetfrom(component)
         lines = [line.clone() for line in context.pop((self, "lines"), None) or []]
+        names = {line.name for line in lines}
+        if names.intersection(("RRULE", "EXRULE")) and "DTSTART" not in names:
+            # otherwise dateutil would use the current time
+            raise ValueError("recurrence rules require a DTSTART")
         for line in lines:
             if line.name in ("RRULE", "EXRULE"):
                 convert_until(line, tzoffsetfrom, to_utc=False)
-- 
2.43.0


From 055e8fed4b46ed229f014df1d373f69f8ddd4e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:16 +0000
Subject: [PATCH 31/62] fix: reject VTIMEZONEs without any observance, using
 them raised IndexError

---
 src/ics/converter/types/timezone.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ics/converter/types/timezone.py b/src/ics/converter/types/timezone.py
index 8ee3efe..117a32c 100644
--- a/src/ics/converter/types/timezone.py
+++ b/src/ics/converter/types/timezone.py
@@ -26,6 +26,10 @@ class TimezoneMeta(ImmutableComponentMeta):
         #       time value.
 
         instance = super().load_instance(container, context)
+        if not instance.observances:
+            raise ValueError(
+                f"VTIMEZONE {instance.tzid} has neither a STANDARD nor a DAYLIGHT observance"
+            )
         if context is not None:
             available_tz = context.setdefault(
                 DatetimeConverterMixin.CONTEXT_KEY_AVAILABLE_TZ, {}
-- 
2.43.0


From 0dcdce1b5f44b9fd569c604f3b6296b06f7abe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:34 +0000
Subject: [PATCH 32/62] fix: timezone observances with several DTSTARTs
 silently used the last one

---
 src/ics/converter/types/various.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 2b0e5b6..edd9467 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -79,8 +79,10 @@ class RecurrenceConverter(AttributeConverter):
     def post_populate(self, component: Component, context: ContextDict):
         tzoffsetfrom = get_tzoffsetfrom(component)
         lines = [line.clone() for line in context.pop((self, "lines"), None) or []]
-        names = {line.name for line in lines}
-        if names.intersection(("RRULE", "EXRULE")) and "DTSTART" not in names:
+        names = [line.name for line in lines]
+        if names.count("DTSTART") > 1:
+            raise ValueError("attribute DTSTART can only be set once")
+        if ("RRULE" in names or "EXRULE" in names) and "DTSTART" not in names:
             # otherwise dateutil would use the current time
             raise ValueError("recurrence rules require a DTSTART")
         for line in lines:
-- 
2.43.0


From f6a5b2f757ba0d3014eee16cb5acf3809e6c3bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:05 +0000
Subject: [PATCH 33/62] fix: recurrence rules without FREQ raised TypeError
 instead of ValueError

---
 src/ics/converter/types/various.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index edd9467..9270d45 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -91,7 +91,10 @@ class RecurrenceConverter(AttributeConverter):
         lines_str = "".join(line.serialize(newline=True) for line in lines)
         # TODO only feed dateutil the params it likes, add the rest as extra
         tzinfos = context.get(DatetimeConverterMixin.CONTEXT_KEY_AVAILABLE_TZ, {})
-        rrule = dateutil.rrule.rrulestr(lines_str, tzinfos=tzinfos, compatible=True)
+        try:
+            rrule = dateutil.rrule.rrulestr(lines_str, tzinfos=tzinfos, compatible=True)
+        except TypeError as e:  # FREQ is missing
+            raise ValueError(f"invalid recurrence rule: {e}") from e
         rrule._rdate = list(unique_justseen(sorted(rrule._rdate)))  # type: ignore
         rrule._exdate = list(unique_justseen(sorted(rrule._exdate)))  # type: ignore
         self.set_or_append_value(component, rrule)
-- 
2.43.0


From 9306275749595a055da6a9740f05b76acc765092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:07 +0000
Subject: [PATCH 34/62] fix: todos and events with both DTEND and DUE silently
 used the last one

---
 src/ics/converter/types/timespan.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index b03ae95..0228574 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -66,6 +66,8 @@ class TimespanConverter(AttributeConverter):
                 context[CONTEXT_BEGIN_TIME] = value
             else:
                 end_name = {"DTEND": "end", "DUE": "due"}[item.name]
+                if context[CONTEXT_END_NAME]:
+                    raise ValueError("can't have both DTEND and DUE")
                 context[CONTEXT_END_NAME] = end_name
                 self.set_or_append_extra_params(component, params, name=end_name)
                 context[CONTEXT_END_TIME] = value
-- 
2.43.0


From 4dc33f6c6f7630500700bbaa20601bd289654a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:39 +0000
Subject: [PATCH 35/62] fix: DTSTART of timezones was written a second time as
 RDATE

---
 src/ics/converter/types/various.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 9270d45..5edf828 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -133,6 +133,8 @@ class RecurrenceConverter(AttributeConverter):
             cl.name = "EXRULE"
             output.append(cl)
         for rdate in unique_justseen(sorted(value._rdate)):
+            if rdate == context["DTSTART"]:
+                continue  # DTSTART always is the first recurrence
             output.append(
                 ContentLine(name="RDATE", value=DatetimeConverter.serialize(rdate))
             )
-- 
2.43.0


From 554122f86be83cd6a72915b46c7c5585abe85e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:44 +0000
Subject: [PATCH 36/62] fix: converting instants to timezones whose standard
 offset changes gave wrong local times

---
 src/ics/timezone/__init__.py | 45 ++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index e5ff59a..8f4bbac 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -207,14 +207,45 @@ class Timezone(Component, _tzinfo):
         if lastcomp:
             return lastcomp
         else:
-            # RFC says nothing about what to do when a given time is before the first onset date.
-            # We'll look for the first standard component,
-            # or the first component, if none is found.
-            for comp in self.observances:
-                if not comp.is_dst:
-                    return comp
+            return self._first_observance()
 
-            return self.observances[0]
+    def _first_observance(self):
+        # RFC says nothing about what to do when a given time is before the first onset date.
+        # We'll look for the first standard component,
+        # or the first component, if none is found.
+        for comp in self.observances:
+            if not comp.is_dst:
+                return comp
+
+        return self.observances[0]
+
+    def _find_observance_utc(self, dt):
+        lastcompdt = lastcomp = None
+        for comp in self.observances:
+            # the onsets are given in the local time used directly before them
+            compdt = comp.rrule.before(dt + comp.tzoffsetfrom, inc=True)
+            if compdt:
+                compdt -= comp.tzoffsetfrom
+                if not lastcompdt or lastcompdt < compdt:
+                    lastcompdt = compdt
+                    lastcomp = comp
+        return lastcomp or self._first_observance()
+
+    def fromutc(self, dt):
+        # the implementation inherited from dateutil assumes that the standard offset never changes
+        if not isinstance(dt, datetime.datetime):
+            raise TypeError("fromutc() requires a datetime argument")
+        if dt.tzinfo is not self:
+            raise ValueError("dt.tzinfo is not self")
+
+        if len(self.observances) < 2:
+            comp = self.observances[0]
+        else:
+            comp = self._find_observance_utc(dt.replace(tzinfo=None))
+        dt_wall = (dt + comp.tzoffsetto).replace(fold=0)
+        if dt_wall.utcoffset() != comp.tzoffsetto:
+            dt_wall = dt_wall.replace(fold=1)
+        return dt_wall
 
     def utcoffset(self, dt):
         if dt is None:
-- 
2.43.0


From 33f5de0c7e2f9864a49cc21f68349c221f1ae777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:34 +0000
Subject: [PATCH 37/62] fix: contentline_set_wrap also changed the wrapping in
 all other threads

---
 src/ics/contentline/container.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index 2a24b19..882cbb9 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -3,8 +3,9 @@ import re
 import sys
 from collections import UserString
 from contextlib import contextmanager
+from contextvars import ContextVar
 from textwrap import TextWrapper
-from typing import List, MutableSequence, Tuple, Union
+from typing import List, MutableSequence, Optional, Tuple, Union
 
 import attr
 
@@ -16,7 +17,25 @@ from ics.types import (
 )
 from ics.utils import limit_str_length, validate_truthy
 
-DEFAULT_LINE_WRAP = TextWrapper(
+line_wrap_width: ContextVar[Optional[int]] = ContextVar(
+    "ics.contentline.line_wrap_width", default=None
+)
+
+
+class ContextTextWrapper(TextWrapper):
+    """A `TextWrapper` whose width can be overridden by `contentline_set_wrap` for the current context only."""
+
+    @property
+    def width(self):
+        width = line_wrap_width.get()
+        return self._width if width is None else width
+
+    @width.setter
+    def width(self, value):
+        self._width = value
+
+
+DEFAULT_LINE_WRAP = ContextTextWrapper(
     width=75,
     initial_indent="",
     subsequent_indent=" ",
@@ -31,15 +50,15 @@ DEFAULT_LINE_WRAP = TextWrapper(
 
 @contextmanager
 def contentline_set_wrap(width):
-    oldwidth = DEFAULT_LINE_WRAP.width
+    # only affect the current thread or task
     if not width or width <= 0:
-        DEFAULT_LINE_WRAP.width = sys.maxsize
+        token = line_wrap_width.set(sys.maxsize)
     else:
-        DEFAULT_LINE_WRAP.width = width
+        token = line_wrap_width.set(width)
     try:
         yield
     finally:
-        DEFAULT_LINE_WRAP.width = oldwidth
+        line_wrap_width.reset(token)
 
 
 @attr.s(slots=True, frozen=True, auto_exc=True)  # type: ignore[misc]
-- 
2.43.0


From 01fb85eb604f00799b435c7ac5a922b7c0ac0b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:59 +0000
Subject: [PATCH 38/62] fix: VALUE types are case-insensitive

---
 src/ics/converter/types/timespan.py | 3 ++-
 src/ics/converter/value.py          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index 0228574..0437561 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -46,7 +46,8 @@ class TimespanConverter(AttributeConverter):
         # param names are case-insensitive
         params = copy_extra_params(item.params, upper_names=True)
         if item.name in ["DTSTART", "DTEND", "DUE"]:
-            value_type = params.pop("VALUE", ["DATE-TIME"])
+            # enumerated param values are case-insensitive
+            value_type = [v.upper() for v in params.pop("VALUE", ["DATE-TIME"])]
             if value_type == ["DATE-TIME"]:
                 precision = "second"
                 value = DatetimeConverter.parse(item.value, params, context)
diff --git a/src/ics/converter/value.py b/src/ics/converter/value.py
index b3d818c..9610226 100644
--- a/src/ics/converter/value.py
+++ b/src/ics/converter/value.py
@@ -97,7 +97,8 @@ class AttributeValueConverter(AttributeConverter):
             if len(value_type) != 1:
                 raise ValueError(f"multiple VALUE type definitions in {line}")
             for converter in self.value_converters:
-                if converter.ics_type == value_type[0]:
+                # enumerated param values are case-insensitive
+                if converter.ics_type == value_type[0].upper():
                     break
             else:
                 raise ValueError(f"can't convert {line} with {self}")
-- 
2.43.0


From 0c80a664eb2127c3372757feec386fcda30ebdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:40 +0000
Subject: [PATCH 39/62] fix: ACTIONs of alarms are case-insensitive

---
 src/ics/alarm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ics/alarm.py b/src/ics/alarm.py
index eda17f3..0edab94 100644
--- a/src/ics/alarm.py
+++ b/src/ics/alarm.py
@@ -118,6 +118,8 @@ class NoneAlarm(BaseAlarm):
 
 
 def get_type_from_action(action_type) -> Type[BaseAlarm]:
+    # enumerated property values are case-insensitive
+    action_type = action_type.upper()
     if action_type == "DISPLAY":
         return DisplayAlarm
     elif action_type == "AUDIO":
-- 
2.43.0


From 3b0bc57429e24df4c17a531eba4d17af56cda7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:29 +0000
Subject: [PATCH 40/62] fix: deep clones of containers shared the lines of
 nested containers

---
 src/ics/contentline/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index 882cbb9..482ce7c 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -286,7 +286,10 @@ class Container(MutableSequence[ContainerItem]):
         if items is None:
             items = self.data
         if deep:
-            items = (item.clone() for item in items)
+            items = (
+                item.clone(deep=True) if isinstance(item, Container) else item.clone()
+                for item in items
+            )
         return attr.evolve(self, data=items)
 
     @staticmethod
-- 
2.43.0


From 098c742bd527c2f8875bc21b4ac53654d09055aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:11 +0000
Subject: [PATCH 41/62] fix: copies of content lines weren't validated any more

---
 src/ics/contentline/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index 482ce7c..c79e907 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -148,7 +148,7 @@ class Patterns:
     )
 
 
-@attr.s(slots=True)
+@attr.s  # slots would have no use, but drop the state of RuntimeAttrValidation when copying
 class ContentLine(RuntimeAttrValidation):
     """
     Represents one property line.
-- 
2.43.0


From d22b254205f73a6a60b098d7842d1f2b08ba7200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:11 +0000
Subject: [PATCH 42/62] fix: timezones, and thus all entries, could be neither
 pickled nor copied deeply

---
 src/ics/timezone/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index 8f4bbac..b216db7 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -173,6 +173,12 @@ class Timezone(Component, _tzinfo):
             func = functools.lru_cache(10)(self._find_observance_cachable)
             object.__setattr__(self, "_find_observance_cachable", func)
 
+    def __reduce__(self):
+        # the implementation inherited from tzinfo would call __init__ without the required args
+        args = tuple(getattr(self, a.name) for a in attr.fields(type(self)) if a.init)
+        state = {"extra": self.extra, "extra_params": self.extra_params}
+        return type(self), args, state
+
     def __str__(self):
         return self.tzid
 
-- 
2.43.0


From 2ecfcae96475d51b7a8353f7e00db04f59690f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:19 +0000
Subject: [PATCH 43/62] fix: params of persons that were read as quoted strings
 couldn't be accessed

---
 src/ics/attendee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ics/attendee.py b/src/ics/attendee.py
index 0af90d6..a3578ba 100644
--- a/src/ics/attendee.py
+++ b/src/ics/attendee.py
@@ -23,7 +23,7 @@ class PersonProperty(Generic[T]):
         if len(value) == 0:
             return self.default
         elif len(value) == 1:
-            return self.converter.parse(value[0])
+            return self.converter.parse(str(value[0]))  # might be quoted
         else:
             raise ValueError(
                 f"Expected at most one value for property {self.name!r}, got {value!r}!"
@@ -45,7 +45,7 @@ class PersonMultiProperty(Generic[T]):
     def __get__(self, instance: "Person", owner) -> List[T]:
         if self.name not in instance.extra:
             return self.default
-        return [self.converter.parse(v) for v in instance.extra[self.name]]
+        return [self.converter.parse(str(v)) for v in instance.extra[self.name]]
 
     def __set__(self, instance: "Person", value: Iterable[T]):
         instance.extra[self.name] = [self.converter.serialize(v) for v in value]
-- 
2.43.0


From 8024c9a0c1086c30840d8e784698ac9f01c7d419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:19 +0000
Subject: [PATCH 44/62] fix: setting an attribute of a person to None wrote the
 param value 'None'

---
 src/ics/attendee.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ics/attendee.py b/src/ics/attendee.py
index a3578ba..f53e049 100644
--- a/src/ics/attendee.py
+++ b/src/ics/attendee.py
@@ -30,6 +30,9 @@ class PersonProperty(Generic[T]):
             )
 
     def __set__(self, instance: "Person", value: T):
+        if value is None:
+            self.__delete__(instance)
+            return
         instance.extra[self.name] = [self.converter.serialize(value)]
 
     def __delete__(self, instance: "Person"):
-- 
2.43.0


From c504229d9408d96b0062ed51c80a221f5bc4cb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:19 +0000
Subject: [PATCH 45/62] fix: empty lists of members and delegates were written
 as params without value

---
 src/ics/attendee.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ics/attendee.py b/src/ics/attendee.py
index f53e049..f858420 100644
--- a/src/ics/attendee.py
+++ b/src/ics/attendee.py
@@ -51,7 +51,12 @@ class PersonMultiProperty(Generic[T]):
         return [self.converter.parse(str(v)) for v in instance.extra[self.name]]
 
     def __set__(self, instance: "Person", value: Iterable[T]):
-        instance.extra[self.name] = [self.converter.serialize(v) for v in value]
+        values = [self.converter.serialize(v) for v in value or ()]
+        if values:
+            instance.extra[self.name] = values
+        else:
+            # a param without values can't be written
+            self.__delete__(instance)
 
     def __delete__(self, instance: "Person"):
         instance.extra.pop(self.name, None)
-- 
2.43.0


From 63ae0757d8f8d62ac8f2fe3e8c1a156f4213ce01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:12 +0000
Subject: [PATCH 46/62] fix: very long timezone names raised OSError instead of
 ValueError

---
 src/ics/timezone/converters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ics/timezone/converters.py b/src/ics/timezone/converters.py
index 9402f99..3f0d9a6 100644
--- a/src/ics/timezone/converters.py
+++ b/src/ics/timezone/converters.py
@@ -35,7 +35,10 @@ class TimezoneResult(Enum):
 def Timezone_from_tzid(tzid: str) -> Timezone:
     import ics_vtimezones  # type: ignore
 
-    tz_ics = ics_vtimezones.find_vtimezone_ics_file(tzid)
+    try:
+        tz_ics = ics_vtimezones.find_vtimezone_ics_file(tzid)
+    except OSError:  # not a possible file name, e.g. as it's too long
+        tz_ics = None
     if not tz_ics:
         olson_tzid = ics_vtimezones.windows_to_olson(tzid)
         if olson_tzid:
-- 
2.43.0


From 5e600996fe4c8213ed334b4d20683f13130a1e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:23 +0000
Subject: [PATCH 47/62] fix: times with very long timezone names raised OSError
 instead of ValueError

---
 src/ics/valuetype/datetime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 19a8026..edb1c8c 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -108,7 +108,10 @@ class DatetimeConverterMixin:
                         param_tz
                     )  # be lenient with missing vtimezone definitions
                 except ValueError:
-                    found_tz = gettz(param_tz)
+                    try:
+                        found_tz = gettz(param_tz)
+                    except OSError:  # not a possible file name
+                        found_tz = None
                     import platform
                     import sys
 
-- 
2.43.0


From 4699549e8f1c1bcfab5534a1d387ff757307e054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:56 +0000
Subject: [PATCH 48/62] fix: recurrence times out of range or with mixed
 timezones raised OverflowError or TypeError instead of ValueError

---
 src/ics/converter/types/various.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 5edf828..7e6abfa 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -93,10 +93,11 @@ class RecurrenceConverter(AttributeConverter):
         tzinfos = context.get(DatetimeConverterMixin.CONTEXT_KEY_AVAILABLE_TZ, {})
         try:
             rrule = dateutil.rrule.rrulestr(lines_str, tzinfos=tzinfos, compatible=True)
-        except TypeError as e:  # FREQ is missing
+            rrule._rdate = list(unique_justseen(sorted(rrule._rdate)))  # type: ignore
+            rrule._exdate = list(unique_justseen(sorted(rrule._exdate)))  # type: ignore
+        except (TypeError, OverflowError) as e:
+            # FREQ is missing, local and aware times are mixed, or numbers are out of range
             raise ValueError(f"invalid recurrence rule: {e}") from e
-        rrule._rdate = list(unique_justseen(sorted(rrule._rdate)))  # type: ignore
-        rrule._exdate = list(unique_justseen(sorted(rrule._exdate)))  # type: ignore
         self.set_or_append_value(component, rrule)
 
     def serialize(self, component: Component, output: Container, context: ContextDict):
-- 
2.43.0


From f3d3baa134f5831fcba32ff479fb110c9933e2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:21 +0000
Subject: [PATCH 49/62] fix: timezone observances starting at UTC times were
 read, but raised TypeError when used

---
 src/ics/converter/types/various.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 7e6abfa..0308fd9 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -98,6 +98,10 @@ class RecurrenceConverter(AttributeConverter):
         except (TypeError, OverflowError) as e:
             # FREQ is missing, local and aware times are mixed, or numbers are out of range
             raise ValueError(f"invalid recurrence rule: {e}") from e
+        if tzoffsetfrom is not None and any(
+            dt.tzinfo for dt in rrule._rdate + rrule._exdate  # type: ignore
+        ):
+            raise ValueError("timezone observances must start at local times")
         self.set_or_append_value(component, rrule)
 
     def serialize(self, component: Component, output: Container, context: ContextDict):
-- 
2.43.0


From 51e7818b15103adeaefe938778bc37fa21fee519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:16 +0000
Subject: [PATCH 50/62] fix: UTC offsets of a day and more were read, but made
 times unusable

---
 src/ics/valuetype/datetime.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index edb1c8c..bbd91ab 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -261,6 +261,9 @@ class UTCOffsetConverterClass(ValueConverter[UTCOffset]):
         groups = match.groupdict()
         sign = groups.pop("sign")
         td = timedelta(**{k: int(v) for k, v in groups.items() if v})
+        if td >= timedelta(days=1):
+            # no valid offset of a tzinfo
+            raise ValueError(f"UTCOffset '{value}' must be less than one day")
         if sign == "-":
             return cast(UTCOffset, -td)
         else:
-- 
2.43.0


From 802a949d6997f8293125719b0d8c5863788eaa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:10 +0000
Subject: [PATCH 51/62] fix: UNTIL dates before the year 1000 were written with
 less than four digits

---
 src/ics/rrule.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ics/rrule.py b/src/ics/rrule.py
index c093c51..14bda95 100644
--- a/src/ics/rrule.py
+++ b/src/ics/rrule.py
@@ -1,3 +1,5 @@
+import re
+
 import dateutil.rrule
 
 from ics.contentline.parser import ContentLineParser
@@ -32,7 +34,10 @@ def rrule_to_ContentLine(self: dateutil.rrule.rrule):
     while val[0].startswith("DTSTART"):
         val = val[1:]
     assert len(val) == 1
-    return ContentLineParser().parse(val[0])
+    cl = ContentLineParser().parse(val[0])
+    # strftime doesn't pad years before 1000
+    cl.value = re.sub(r"(?<=UNTIL=)\d+(?=T)", lambda m: m[0].zfill(8), cl.value)
+    return cl
 
 
 def rrule_eq(self: dateutil.rrule.rrule, other: dateutil.rrule.rrule):
-- 
2.43.0


From e7e0d2acaaf07d609d6173093a8c65352ef33411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:10 +0000
Subject: [PATCH 52/62] fix: recurrence rules with numbers out of range were
 read, but raised errors or looped when used

---
 src/ics/converter/types/various.py | 35 +++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 0308fd9..21750c5 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -20,7 +20,7 @@ from ics.component import Component
 from ics.contentline import Container, ContentLine
 from ics.converter.base import AttributeConverter, GenericConverter, sort_converters
 from ics.converter.component import ComponentMeta
-from ics.rrule import rrule_to_ContentLine
+from ics.rrule import rrule_to_ContentLine, rrule_to_dict
 from ics.types import ContainerItem, ContextDict, ExtraParams, copy_extra_params
 from ics.utils import one
 from ics.valuetype.datetime import DatetimeConverter, DatetimeConverterMixin
@@ -60,6 +60,37 @@ def convert_until(line: ContentLine, tzoffsetfrom: Optional[timedelta], to_utc:
         )
 
 
+# the smallest and largest values of the parts of recurrence rules, which dateutil doesn't check
+RRULE_LIMITS = {
+    "bymonth": (1, 12),
+    "bymonthday": (-31, 31),
+    "byyearday": (-366, 366),
+    "byweekno": (-53, 53),
+    "byhour": (0, 23),
+    "byminute": (0, 59),
+    "bysecond": (0, 59),
+    "byeaster": (-200, 200),
+}
+
+
+def validate_rrule(rrule: dateutil.rrule.rrule):
+    values = rrule_to_dict(rrule)
+    if values["interval"] < 1 or (values["count"] is not None and values["count"] < 1):
+        raise ValueError("INTERVAL and COUNT must be positive")
+    for name, (low, high) in RRULE_LIMITS.items():
+        for value in values.get(name) or ():
+            if not low <= value <= high:
+                raise ValueError(f"{name.upper()} must be from {low} to {high}")
+            if value == 0 and name in ("byyearday", "byweekno"):
+                raise ValueError(f"{name.upper()} can't be 0")
+    if values.get("bymonthday") == ():
+        raise ValueError("BYMONTHDAY can't be 0")
+    monthly = values["freq"] == dateutil.rrule.MONTHLY or values.get("bymonth")
+    for weekday in values.get("byweekday") or ():
+        if abs(weekday.n or 0) > (5 if monthly else 53):
+            raise ValueError("number of BYDAY out of range")
+
+
 class RecurrenceConverter(AttributeConverter):
     @property
     def filter_ics_names(self) -> List[str]:
@@ -93,6 +124,8 @@ class RecurrenceConverter(AttributeConverter):
         tzinfos = context.get(DatetimeConverterMixin.CONTEXT_KEY_AVAILABLE_TZ, {})
         try:
             rrule = dateutil.rrule.rrulestr(lines_str, tzinfos=tzinfos, compatible=True)
+            for rule in rrule._rrule + rrule._exrule:  # type: ignore
+                validate_rrule(rule)
             rrule._rdate = list(unique_justseen(sorted(rrule._rdate)))  # type: ignore
             rrule._exdate = list(unique_justseen(sorted(rrule._exdate)))  # type: ignore
         except (TypeError, OverflowError) as e:
-- 
2.43.0


From ea5c9c126635fa91efc3ed31c34b9bd21bb5114d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:19 +0000
Subject: [PATCH 53/62] fix: durations of more than 999999999 days raised
 OverflowError instead of ValueError

---
 src/ics/valuetype/datetime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index bbd91ab..1d2b70a 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -348,7 +348,10 @@ class DurationConverterClass(ValueConverter[timedelta]):
             else:
                 raise ValueError(f"Error while parsing {value}")
             i = j + 1
-        return timedelta(sign * days, sign * secs)
+        try:
+            return timedelta(sign * days, sign * secs)
+        except OverflowError as e:
+            raise ValueError(f"DURATION {value} is too long") from e
 
     def serialize(
         self,
-- 
2.43.0


From fd242dc8e4413991e4166566207d94b6b9065daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:51 +0000
Subject: [PATCH 54/62] fix: timespans ending after the year 9999 were
 accepted, but raised OverflowError when used

---
 src/ics/timespan.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index 28f1784..4841130 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -291,6 +291,13 @@ class Timespan:
                         % (self.duration, self.precision)
                     )
 
+            try:
+                self.get_effective_end()
+            except OverflowError as e:
+                raise ValueError(
+                    self._end_name() + " time would be after the year 9999"
+                ) from e
+
         else:
             if self.end_time is not None:
                 # Todos might have end/due time without begin
-- 
2.43.0


From 0f3f599593660aa7614957368fad9a0e8124c973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:51 +0000
Subject: [PATCH 55/62] fix: coordinates that are not finite were read, but
 calendars with them weren't equal to themselves

---
 src/ics/valuetype/special.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ics/valuetype/special.py b/src/ics/valuetype/special.py
index f0e4207..38f96a4 100644
--- a/src/ics/valuetype/special.py
+++ b/src/ics/valuetype/special.py
@@ -1,4 +1,5 @@
 import abc
+import math
 from typing import Generic, Iterable, Type, TypeVar, Union, cast
 from urllib.parse import urlparse
 
@@ -29,7 +30,10 @@ class GeoConverterClass(ValueConverter[Geo]):
         latitude, sep, longitude = value.partition(";")
         if not sep:
             raise ValueError("geo must have two float values")
-        return Geo(float(latitude), float(longitude))
+        geo = Geo(float(latitude), float(longitude))
+        if not all(map(math.isfinite, geo)):
+            raise ValueError("geo values must be finite")
+        return geo
 
     def serialize(
         self,
-- 
2.43.0


From 9f969ebc23254834123d902ca2e5356b02d0ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:48 +0000
Subject: [PATCH 56/62] fix: nested components with an equally declared
 attribute couldn't be read

---
 src/ics/converter/base.py  | 2 +-
 src/ics/converter/value.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ics/converter/base.py b/src/ics/converter/base.py
index 8f78e37..36b06d9 100644
--- a/src/ics/converter/base.py
+++ b/src/ics/converter/base.py
@@ -89,7 +89,7 @@ class GenericConverter(abc.ABC):
         pass
 
 
-@attr.s(frozen=True)
+@attr.s(frozen=True, eq=False)
 class AttributeConverter(GenericConverter, abc.ABC):
     """
     A Converter that can serialize and populate a single of attribute of some Component.
diff --git a/src/ics/converter/value.py b/src/ics/converter/value.py
index 9610226..e29d382 100644
--- a/src/ics/converter/value.py
+++ b/src/ics/converter/value.py
@@ -10,7 +10,8 @@ from ics.types import ContainerItem, ContextDict, ExtraParams, copy_extra_params
 from ics.valuetype.base import ValueConverter
 
 
-@attr.s(frozen=True)
+# the state kept in the context belongs to the instance, attributes of nested components might be equal
+@attr.s(frozen=True, eq=False)
 class AttributeValueConverter(AttributeConverter):
     """
     An `AttributeConverter` that simply use one or more `ValueConverter`s to handle their (single) attribute.
-- 
2.43.0


From fde53b2a8d0c3459d25e157c0d400e2306bb1735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:26 +0000
Subject: [PATCH 57/62] fix: binary values were written without the required
 ENCODING param

---
 src/ics/valuetype/generic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ics/valuetype/generic.py b/src/ics/valuetype/generic.py
index cd03f45..e75ae44 100644
--- a/src/ics/valuetype/generic.py
+++ b/src/ics/valuetype/generic.py
@@ -30,6 +30,11 @@ class BinaryConverterClass(ValueConverter[bytes]):
         params: ExtraParams = EmptyParams,
         context: ContextDict = EmptyContext,
     ) -> bytes:
+        encoding = params.get("ENCODING")
+        if encoding:
+            if [e.upper() for e in encoding] != ["BASE64"]:
+                raise ValueError(f"can't decode BINARY value with ENCODING {encoding}")
+            del params["ENCODING"]  # always added when serializing
         return base64.b64decode(value)
 
     def serialize(
@@ -38,6 +43,7 @@ class BinaryConverterClass(ValueConverter[bytes]):
         params: ExtraParams = EmptyParams,
         context: ContextDict = EmptyContext,
     ) -> str:
+        params["ENCODING"] = ["BASE64"]
         return base64.b64encode(value).decode("ascii")
 
 
-- 
2.43.0


From 00ce99be358dd4d33ff48297fc09c7d40d6171be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:42 +0000
Subject: [PATCH 58/62] fix: times skipped by a DST change didn't use the UTC
 offset before the change

---
 src/ics/timezone/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index b216db7..6512240 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -202,7 +202,8 @@ class Timezone(Component, _tzinfo):
 
         lastcompdt = lastcomp = None
         for comp in self.observances:
-            if comp.tzoffsetdiff < TIMEDELTA_ZERO and fold:
+            # times skipped by a change use the offset before it, repeated ones the offset after it only if fold is set
+            if (comp.tzoffsetdiff < TIMEDELTA_ZERO) == bool(fold):
                 compdt = comp.rrule.before(dt - comp.tzoffsetdiff, inc=True)
             else:
                 compdt = comp.rrule.before(dt, inc=True)
-- 
2.43.0


From 37213bc07c65dff30363097e5ada52fd1f596549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:42 +0000
Subject: [PATCH 59/62] fix: timespans at times repeated or skipped by a DST
 change weren't equal to their copies

---
 src/ics/timespan.py | 24 +++++++++++++++++++++++-
 src/ics/utils.py    | 24 +++++++++++++++++++++++-
 2 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index 4841130..40df7f7 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -25,6 +25,8 @@ from ics.utils import (
     TIMEDELTA_DAY,
     TIMEDELTA_ZERO,
     ceil_datetime_to_midnight,
+    datetime_equal,
+    datetime_instant,
     ensure_datetime,
     floor_datetime_to_midnight,
     timedelta_nearly_zero,
@@ -152,7 +154,7 @@ class NullableTimespanTuple(NamedTuple):
 TimespanT = TypeVar("TimespanT", bound="Timespan")
 
 
-@attr.s(slots=True, frozen=True, eq=True, order=False)
+@attr.s(slots=True, frozen=True, eq=False, order=False)
 class Timespan:
     begin_time: Optional[datetime] = attr.ib(
         validator=v_optional(instance_of(datetime)), default=None
@@ -558,6 +560,26 @@ class Timespan:
         # the timespan doesn't include its end instant / day
         return second.begin <= first.begin and first.end < second.end
 
+    def __eq__(self, other: Any) -> bool:
+        if other.__class__ is not self.__class__:
+            return NotImplemented
+        return (
+            datetime_equal(self.begin_time, other.begin_time)
+            and datetime_equal(self.end_time, other.end_time)
+            and self.duration == other.duration
+            and self.precision == other.precision
+        )
+
+    def __hash__(self) -> int:
+        return hash(
+            (
+                datetime_instant(self.begin_time),
+                datetime_instant(self.end_time),
+                self.duration,
+                self.precision,
+            )
+        )
+
     def __lt__(self, other: Any) -> bool:
         if isinstance(other, Timespan):
             return self.cmp_tuple() < other.cmp_tuple()
diff --git a/src/ics/utils.py b/src/ics/utils.py
index f58e147..d1be7a2 100644
--- a/src/ics/utils.py
+++ b/src/ics/utils.py
@@ -1,10 +1,11 @@
 from datetime import date, datetime, time, timedelta, timezone
-from typing import overload
+from typing import Optional, Union, overload
 from uuid import uuid4
 
 from ics.types import DatetimeLike, TimedeltaLike
 
 datetime_tzutc = timezone.utc
+datetime_epoch = datetime(1970, 1, 1, tzinfo=datetime_tzutc)
 
 MIDNIGHT = time()
 TIMEDELTA_ZERO = timedelta()
@@ -62,6 +63,27 @@ def ensure_timedelta(value):
         raise ValueError(f"can't construct timedelta from {repr(value)}")
 
 
+def datetime_instant(value: Optional[datetime]) -> Union[datetime, timedelta, None]:
+    """The time since the epoch of a datetime, or the datetime itself if it is floating."""
+    if value is None or value.utcoffset() is None:
+        return value
+    return value - datetime_epoch
+
+
+def datetime_equal(first: Optional[datetime], second: Optional[datetime]) -> bool:
+    """
+    Whether two datetimes are the same instant.
+
+    Python deems times which are repeated or skipped by a DST change unequal to all times with another tzinfo object,
+    even if that is a copy, and doesn't distinguish repeated times with the same tzinfo object.
+    """
+    if first is None or second is None:
+        return first is second
+    if first.tzinfo is second.tzinfo and first.fold == second.fold:
+        return first == second
+    return datetime_instant(first) == datetime_instant(second)
+
+
 ###############################################################################
 # Rounding Utils
 
-- 
2.43.0


From ad9896dae407b1ec0b683d8066b67a4a341a35b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:42 +0000
Subject: [PATCH 60/62] fix: times repeated by a DST change weren't ordered
 chronologically

---
 src/ics/timespan.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index 40df7f7..9584790 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -17,7 +17,7 @@ from typing import (
 import attr
 from attr.validators import instance_of
 from attr.validators import optional as v_optional
-from dateutil.tz import tzlocal
+from dateutil.tz import datetime_ambiguous, tzlocal
 
 from ics.types import DatetimeLike
 from ics.utils import (
@@ -27,6 +27,7 @@ from ics.utils import (
     ceil_datetime_to_midnight,
     datetime_equal,
     datetime_instant,
+    datetime_tzutc,
     ensure_datetime,
     floor_datetime_to_midnight,
     timedelta_nearly_zero,
@@ -136,7 +137,21 @@ class Normalization:
 
 # using datetime.min might lead to problems when doing timezone conversions / comparisions (e.g. by subtracting an 1 hour offset)
 CMP_DATETIME_NONE_DEFAULT = datetime(1900, 1, 1, 0, 0)
-CMP_NORMALIZATION = Normalization(
+
+
+class CmpNormalization(Normalization):
+    def normalize(self, value):
+        normalized = super().normalize(value)
+        if isinstance(normalized, datetime) and (
+            normalized.fold
+            or (normalized is not value and datetime_ambiguous(normalized))
+        ):
+            # python ignores fold when comparing datetimes with the same tzinfo, and deems repeated times unequal otherwise
+            return normalized.astimezone(datetime_tzutc)
+        return normalized
+
+
+CMP_NORMALIZATION = CmpNormalization(
     normalize_floating=True, normalize_with_tz=False, replacement=tzlocal
 )
 
-- 
2.43.0


From 5f0e9a620dcbf94527ecf9601a934924b9fa5fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:43 +0000
Subject: [PATCH 61/62] fix: rule sets stay equal to their copies when dateutil
 sorts their dates

---
 src/ics/rrule.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ics/rrule.py b/src/ics/rrule.py
index 14bda95..b973421 100644
--- a/src/ics/rrule.py
+++ b/src/ics/rrule.py
@@ -57,7 +57,8 @@ def rrule_repr(self: dateutil.rrule.rrule):
 def rruleset_eq(self: dateutil.rrule.rruleset, other: dateutil.rrule.rruleset):
     if not isinstance(other, dateutil.rrule.rruleset):
         return False
-    return self._rrule == other._rrule and self._rdate == other._rdate and self._exrule == other._exrule and self._exdate == other._exdate  # type: ignore[attr-defined]
+    # dateutil sorts the dates as soon as the rruleset is used
+    return self._rrule == other._rrule and set(self._rdate) == set(other._rdate) and self._exrule == other._exrule and set(self._exdate) == set(other._exdate)  # type: ignore[attr-defined]
 
 
 def rruleset_str(self: dateutil.rrule.rruleset):
@@ -86,9 +87,9 @@ def rruleset_hash(self: dateutil.rrule.rruleset):
     return hash(
         (
             tuple(self._rrule),  # type: ignore[attr-defined]
-            tuple(self._rdate),  # type: ignore[attr-defined]
+            frozenset(self._rdate),  # type: ignore[attr-defined]
             tuple(self._exrule),  # type: ignore[attr-defined]
-            tuple(self._exdate),  # type: ignore[attr-defined]
+            frozenset(self._exdate),  # type: ignore[attr-defined]
         )
     )
 
-- 
2.43.0


From 6f967831b3a94403eac3c0082ad017f971850214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:15 +0000
Subject: [PATCH 62/62] fix: converting an end in another timezone to a
 duration doesn't move it when the UTC offset changes in between

---
 src/ics/timespan.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index 9584790..f2e4a94 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -400,7 +400,13 @@ class Timespan:
         if current == target or (current_is_end and target_is_end):
             return self
         elif current_is_end and target == "duration":
-            return self.replace(end_time=None, duration=self.get_effective_duration())
+            new = self.replace(end_time=None, duration=self.get_effective_duration())
+            if new.duration is not None:
+                # the duration is added to the wall clock of begin, whose UTC offset might change until the end
+                shift = self.end_time - new.get_effective_end()
+                if shift:
+                    new = new.replace(duration=new.duration + shift)
+            return new
         elif current == "duration" and target_is_end:
             return self.replace(end_time=self.get_effective_end(), duration=None)
         elif target is None:
-- 
2.43.0

