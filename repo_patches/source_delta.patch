From 1eaae86949fd8a1ed8335d09fabeee5ff2336544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:21 +0000
Subject: [PATCH 01/75] fix: give Time rich ordering comparisons, so it sorts
 and getBounds works on Python 3

---
 epsilon/extime.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 33b7103..d7ca201 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -938,6 +938,18 @@ class Time(object):
             raise TypeError("Cannot meaningfully compare %r with %r" % (self, other))
         return cmp(self._time, other._time)
 
+    def __lt__(self, other):
+        return self.__cmp__(other) < 0
+
+    def __le__(self, other):
+        return self.__cmp__(other) <= 0
+
+    def __gt__(self, other):
+        return self.__cmp__(other) > 0
+
+    def __ge__(self, other):
+        return self.__cmp__(other) >= 0
+
     def __eq__(self, other):
         if isinstance(other, Time):
             return cmp(self._time, other._time) == 0
-- 
2.43.0


From 86bc9ba87d380563fa92a653bbd27000c6bef09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:22 +0000
Subject: [PATCH 02/75] fix: FixedOffset.tzname returns a string, as the tzinfo
 interface requires

---
 epsilon/extime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index d7ca201..4a76996 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -90,7 +90,7 @@ class FixedOffset(datetime.tzinfo):
         return self.offset
 
     def tzname(self, dt):
-        return _timedeltaToSignHrMin(self.offset)
+        return '%s%02i:%02i' % _timedeltaToSignHrMin(self.offset)
 
     def dst(self, tz):
         return self._zeroOffset
-- 
2.43.0


From 898e7d3a7b7dc0d679da064b8f1d9537e5fc9d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:24 +0000
Subject: [PATCH 03/75] fix: the sign of an ISO 8601 timezone applies to its
 minutes, too

---
 epsilon/extime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 4a76996..642a13d 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -414,7 +414,9 @@ class Time(object):
                 tzhour = groups.pop('tzhour')
                 tzmin = groups.pop('tzmin')
                 if tzhour is not None:
-                    return FixedOffset(int(tzhour), int(tzmin or 0))
+                    # the sign applies to the minutes, too
+                    return FixedOffset(
+                        int(tzhour), int(tzhour[0] + (tzmin or '0')))
             return tzinfo or FixedOffset(0, 0)
 
         def coerceGroups():
-- 
2.43.0


From 11a9dcfc1d4020f539b55bc3b0710809149ed189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:25 +0000
Subject: [PATCH 04/75] fix: Time.fromHumanly understands times between 12:00
 pm and 12:59 pm

---
 epsilon/extime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 642a13d..5ef328c 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -230,7 +230,7 @@ class Time(object):
                 raise ValueError('hour %i is not in 1..12' % (hour,))
             if hour == 12 and ampm == 'am':
                 hour = 0
-            elif ampm == 'pm':
+            elif hour != 12 and ampm == 'pm':
                 hour += 12
         if not 0 <= hour <= 23:
             raise ValueError('hour %i is not in 0..23' % (hour,))
-- 
2.43.0


From 3feb1ce075c50f1433cff753ac5ad92e75e29e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:58 +0000
Subject: [PATCH 05/75] fix: asISO8601TimeAndDate keeps the parts needed to
 address the start of the period

---
 epsilon/extime.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 5ef328c..20f5c25 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -792,9 +792,23 @@ class Time(object):
             (timezone, datetime.timedelta(hours=1))
         ]
 
+        # The period may not start on a boundary of the unit its resolution
+        # calls for (weeks start in the middle of months, for example), so use
+        # whatever finer parts are needed to address its start.
+        resolution = self.resolution
+        for value, default, unit in [
+            (dtime.month, 1, datetime.timedelta(days=31)),
+            (dtime.day, 1, datetime.timedelta(days=1)),
+            (dtime.hour, 0, datetime.timedelta(hours=1)),
+            (dtime.minute, 0, datetime.timedelta(minutes=1)),
+            (dtime.second, 0, datetime.timedelta(seconds=1)),
+            (dtime.microsecond, 0, datetime.timedelta(microseconds=1))]:
+            if value != default and unit < resolution:
+                resolution = unit
+
         formatted = ''
         for part, minResolution in parts:
-            if self.resolution <= minResolution:
+            if resolution <= minResolution:
                 formatted += part
 
         return formatted
-- 
2.43.0


From a1dd6de47f9bbec308067cc96e082ba597f962ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:59 +0000
Subject: [PATCH 06/75] fix: accept ISO 8601 fractions of a second just short
 of one second

---
 epsilon/extime.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 20f5c25..e1ff558 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -434,6 +434,9 @@ class Time(object):
                 if groups[key] is None:
                     groups[key] = 1
             groups['fractionalsec'] = float('.'+groups['fractionalsec'])
+            if groups['fractionalsec'] > 0.999999:
+                # don't let it round up to a whole second
+                groups['fractionalsec'] = 0.999999
             for key in defaultTo0 + defaultTo1 + ['year']:
                 groups[key] = int(groups[key])
 
-- 
2.43.0


From ed71fd97f666aa5288d9534a660fba82f05c538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:01 +0000
Subject: [PATCH 07/75] fix: sanitizeStructTime substitutes the last day of the
 month for days past it

---
 epsilon/extime.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index e1ff558..44f5832 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -5,6 +5,7 @@ Extended date/time formatting and miscellaneous functionality.
 See the class 'Time' for details.
 """
 
+import calendar
 import datetime
 import re
 
@@ -31,6 +32,8 @@ def sanitizeStructTime(struct):
     newstruct = []
     for value, maxValue, minValue in zip(struct[:6], maxValues, minValues):
         newstruct.append(max(minValue, min(value, maxValue)))
+    # not every month has 31 days
+    newstruct[2] = min(newstruct[2], calendar.monthrange(*newstruct[:2])[1])
     return tuple(newstruct) + struct[6:]
 
 def _timedeltaToSignHrMin(offset):
-- 
2.43.0


From 63212f439b4529e6e7ce1dda0a0d92edce45bff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:33 +0000
Subject: [PATCH 08/75] fix: the length of a juice body is counted in bytes

---
 epsilon/juice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 6a58863..e1de96f 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -65,7 +65,7 @@ class JuiceBox(dict):
         for (k, v) in six.viewitems(self):
             if k == BODY:
                 k = LENGTH
-                v = str(len(self[BODY]))
+                v = str(len(six.ensure_binary(self[BODY])))
             L.append(six.ensure_binary(k).replace(b'_', b'-').title())
             L.append(b': ')
             L.append(six.ensure_binary(v).replace(delimiter, escaped))
-- 
2.43.0


From 3d1b305271ec21505a46781aa04309391a254f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:35 +0000
Subject: [PATCH 09/75] fix: an empty juice body is delivered rather than
 dropped

---
 epsilon/juice.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index e1de96f..8df9d27 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -297,7 +297,11 @@ def parseJuiceHeaders(lines):
         key, value = parts
         key = normalizeKey(key)
         b[key] = six.ensure_str(value)
-    return int(b.pop(LENGTH, 0)), b
+    length = int(b.pop(LENGTH, -1))
+    if length == 0:
+        # present, but empty
+        b[BODY] = ''
+    return max(length, 0), b
 
 class JuiceParserBase(DispatchMixin):
 
-- 
2.43.0


From 106958341000bae3759fc5a931e003d6e03aa63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:37 +0000
Subject: [PATCH 10/75] fix: don't recurse for each juice box with a body in
 one chunk of data

---
 epsilon/juice.py |  2 +-
 epsilon/liner.py | 20 ++++++++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 8df9d27..19375dc 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -907,7 +907,7 @@ class Juice(LineReceiver, JuiceParserBase, object):
                 extraData = data[self._bodyRemaining:]
             else:
                 self._bodyBuffer.append(data)
-                extraData = ''
+                extraData = b''
             self._pendingBox['body'] = six.ensure_str(b''.join(six.ensure_binary(each) for each in self._bodyBuffer))
             self._bodyBuffer = None
             b, self._pendingBox = self._pendingBox, None
diff --git a/epsilon/liner.py b/epsilon/liner.py
index a28352a..6675b75 100644
--- a/epsilon/liner.py
+++ b/epsilon/liner.py
@@ -9,6 +9,8 @@ class LineReceiver(Protocol):
     MAX_LINE_LENGTH = 1024 * 1024
     buffer = b''
     delimiter = b'\r\n'
+    _deliveringRawData = False
+    _extra = b''
 
     def lineReceived(self, line):
         pass
@@ -18,7 +20,11 @@ class LineReceiver(Protocol):
 
     def setLineMode(self, extra=b''):
         self.lineMode = True
-        if extra:
+        if self._deliveringRawData:
+            # Leave it to dataReceived, rather than recursing once for each
+            # switch back to line mode.
+            self._extra += extra
+        elif extra:
             self.dataReceived(extra)
 
     def isDisconnecting(self):
@@ -34,6 +40,12 @@ class LineReceiver(Protocol):
         self.lineMode = False
 
     def dataReceived(self, data):
+        self._extra += data
+        while self._extra:
+            extra, self._extra = self._extra, b''
+            self._dataReceived(extra)
+
+    def _dataReceived(self, data):
         buffer = self.buffer
         buffer += data
         delimiter = self.delimiter
@@ -58,7 +70,11 @@ class LineReceiver(Protocol):
             if self.isDisconnecting():
                 return
             if buffer:
-                self.rawDataReceived(buffer)
+                self._deliveringRawData = True
+                try:
+                    self.rawDataReceived(buffer)
+                finally:
+                    self._deliveringRawData = False
         else:
             self.buffer = buffer
 
-- 
2.43.0


From 51cb5a35697e4860d4d96425bdec804bfb0aaef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:08 +0000
Subject: [PATCH 11/75] fix: connect the inner protocol only once when a
 command with a body switches to it

---
 epsilon/juice.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 19375dc..c8222f2 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -913,7 +913,6 @@ class Juice(LineReceiver, JuiceParserBase, object):
             b, self._pendingBox = self._pendingBox, None
             self.juiceBoxReceived(b)
             if self.innerProtocol is not None:
-                self.innerProtocol.makeConnection(self.transport)
                 if extraData:
                     self.innerProtocol.dataReceived(extraData)
             else:
-- 
2.43.0


From 5889d3fe313ae2344192bf0c7dfc6a0d0e98028f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:09 +0000
Subject: [PATCH 12/75] fix: juice Unicode and Path arguments can be received
 on Python 3

---
 epsilon/juice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index c8222f2..a9db184 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -517,11 +517,11 @@ Body = String
 class Unicode(String):
     def toString(self, inObject):
         # assert isinstance(inObject, unicode)
-        return String.toString(self, inObject.encode('utf-8'))
+        return String.toString(self, six.ensure_str(inObject, 'utf-8'))
 
     def fromString(self, inString):
         # assert isinstance(inString, str)
-        return String.fromString(self, inString).decode('utf-8')
+        return six.ensure_text(String.fromString(self, inString), 'utf-8')
 
 class Path(Unicode):
     def fromString(self, inString):
-- 
2.43.0


From 48bf62032f31ce30c06b3354ea4c02c005ec74df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:11 +0000
Subject: [PATCH 13/75] fix: juice Base64Binary arguments work on Python 3

---
 epsilon/juice.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index a9db184..6e8d9a5 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -1,6 +1,7 @@
 # -*- test-case-name: epsilon.test.test_juice -*-
 # Copyright 2005 Divmod, Inc.  See LICENSE file for details
 
+import base64
 import warnings, pprint
 import keyword
 import io
@@ -537,9 +538,9 @@ class Float(Argument):
 
 class Base64Binary(Argument):
     def toString(self, inObject):
-        return inObject.encode('base64').replace('\n', '')
+        return six.ensure_str(base64.b64encode(inObject))
     def fromString(self, inString):
-        return inString.decode('base64')
+        return base64.b64decode(inString)
 
 class Time(Argument):
     def toString(self, inObject):
-- 
2.43.0


From d8cf797a02fd7ebc68749498d4ee25a6c07d05ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:13 +0000
Subject: [PATCH 14/75] fix: juice EncodedString arguments can be received on
 Python 3

---
 epsilon/juice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 6e8d9a5..81e1832 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -509,7 +509,7 @@ class EncodedString(Argument):
         return inObject.encode(self.encoding)
 
     def fromString(self, inString):
-        return inString.decode(self.encoding)
+        return six.ensure_binary(inString).decode(self.encoding)
 
 # Temporary backwards compatibility for Exponent
 
-- 
2.43.0


From 51d37162f66080e16b5f7c67a30a78d06e4fcf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:15 +0000
Subject: [PATCH 15/75] fix: juice fatalErrors terminate the connection

---
 epsilon/juice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 81e1832..6990b4d 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -226,7 +226,7 @@ class DispatchMixin:
                 code = command.allErrors[key]
                 desc = str(error.value)
                 return Failure(RemoteJuiceError(
-                        code, desc, error in command.fatalErrors))
+                        code, desc, key in command.fatalErrors))
             return maybeDeferred(aCallable, **kw).addCallback(
                 command.makeResponse, proto).addErrback(
                 checkKnownErrors)
-- 
2.43.0


From cfc0c4ecfeb0a7e97d1e02c28f01d88fe9dc167e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:30 +0000
Subject: [PATCH 16/75] fix: AMP routes work over a real AMP connection on
 Python 3

---
 epsilon/amprouter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index dbb9f18..7bd4823 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -9,12 +9,12 @@ multiple L{IBoxReceiver}/I{IBoxSender} pairs over a single L{AMP} connection.
 from itertools import count
 
 import six
-from twisted.protocols.amp import IBoxReceiver, IBoxSender
+from twisted.protocols.amp import AmpBox, IBoxReceiver, IBoxSender
 from zope.interface import implementer
 
 from epsilon.structlike import record
 
-_ROUTE = '_route'
+_ROUTE = b'_route'
 _unspecified = object()
 
 
@@ -90,6 +90,9 @@ class Route(record('router receiver localRouteName remoteRouteName',
             raise RouteNotConnected()
         if self.remoteRouteName is not None:
             box[_ROUTE] = self.remoteRouteName
+            if isinstance(box, AmpBox):
+                # AMP can only send bytes.
+                box[_ROUTE] = six.ensure_binary(self.remoteRouteName)
         self.router._sender.sendBox(box)
 
 
@@ -186,6 +189,8 @@ class Router:
         indicated by the box, or handle it directly if there is no route.
         """
         route = box.pop(_ROUTE, None)
+        if route is not None:
+            route = six.ensure_text(route)
         self._routes[route].receiver.ampBoxReceived(box)
 
 
-- 
2.43.0


From f87ade95258655bd318d0789440e49e613171438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:32 +0000
Subject: [PATCH 17/75] fix: createRouteIdentifier skips identifiers which are
 already associated with a route

---
 epsilon/amprouter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index 7bd4823..240cd87 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -141,7 +141,11 @@ class Router:
 
         @rtype: C{unicode}
         """
-        return six.text_type(next(self._routeCounter))
+        inUse = self._routes or self._unstarted or {}
+        routeName = six.text_type(next(self._routeCounter))
+        while routeName in inUse:
+            routeName = six.text_type(next(self._routeCounter))
+        return routeName
 
 
     def bindRoute(self, receiver, routeName=_unspecified):
-- 
2.43.0


From 6d31dbd9d4e1038b57fcc396cef07780c4c5f7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:34 +0000
Subject: [PATCH 18/75] fix: routes can be bound, connected and unbound at any
 point of the router's life

---
 epsilon/amprouter.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index 240cd87..0aa0c93 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -65,7 +65,12 @@ class Route(record('router receiver localRouteName remoteRouteName',
         """
         Remove the association between this route and its router.
         """
-        del self.router._routes[self.localRouteName]
+        routes = self.router._routes
+        if routes is None:
+            routes = self.router._unstarted
+        # There is nothing to remove it from if the router has been stopped.
+        if routes is not None:
+            del routes[self.localRouteName]
 
 
     def start(self):
@@ -177,14 +182,16 @@ class Router:
         Initialize route tracking objects.
         """
         self._sender = sender
-        for routeName, route in six.viewitems(self._unstarted):
+        self._routes = self._unstarted
+        self._unstarted = None
+        # Starting a route may bind, connect, or unbind others.
+        unstarted = [route for route in self._routes.values()
+                     if route.remoteRouteName is not _unspecified]
+        for route in unstarted:
             # Any route which has been bound but which does not yet have a
             # remote route name should not yet be started.  These will be
             # started in Route.connectTo.
-            if route.remoteRouteName is not _unspecified:
-                route.start()
-        self._routes = self._unstarted
-        self._unstarted = None
+            route.start()
 
 
     def ampBoxReceived(self, box):
@@ -202,7 +209,7 @@ class Router:
         """
         Stop all the L{IBoxReceiver}s which have been added to this router.
         """
-        for routeName, route in six.viewitems(self._routes):
+        for route in list(self._routes.values()):
             route.stop(reason)
         self._routes = None
 
-- 
2.43.0


From 0106c91c4bd8b3d9d3dec14f3c3fbfa769586546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:22 +0000
Subject: [PATCH 19/75] fix: log out avatars whose login completes too late to
 use the connection

---
 epsilon/ampauth.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/epsilon/ampauth.py b/epsilon/ampauth.py
index ad0a3bb..5e70080 100644
--- a/epsilon/ampauth.py
+++ b/epsilon/ampauth.py
@@ -175,6 +175,7 @@ class CredReceiver(AMP):
     """
     portal = None
     logout = None
+    _disconnected = False
 
     @PasswordLogin.responder
     def passwordLogin(self, username):
@@ -193,6 +194,12 @@ class CredReceiver(AMP):
         d = self.portal.login(credentials, None, IBoxReceiver)
         def cbLoggedIn(result):
             interface, avatar, logout = result
+            if self._disconnected or self.logout is not None:
+                # There is no connection for this avatar to use: either it was
+                # lost while the login was in progress, or another login has
+                # succeeded on it already.
+                logout()
+                raise UnauthorizedLogin()
             self.logout = logout
             self.boxReceiver = avatar
             self.boxReceiver.startReceivingBoxes(self.boxSender)
@@ -222,6 +229,7 @@ class CredReceiver(AMP):
         """
         If a login has happened, perform a logout.
         """
+        self._disconnected = True
         AMP.connectionLost(self, reason)
         if self.logout is not None:
             self.logout()
-- 
2.43.0


From c51d040fab0b557abd354497266944c7559de8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:24 +0000
Subject: [PATCH 20/75] fix: honor modeAttribute when setting the initial mode
 and in transitionTo

---
 epsilon/modal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/modal.py b/epsilon/modal.py
index bfc4cb2..84b38c5 100644
--- a/epsilon/modal.py
+++ b/epsilon/modal.py
@@ -101,7 +101,7 @@ class ModalType(type):
         # for that mode.
         implementations = {}
 
-        keepAttrs = {'mode': initialMode}
+        keepAttrs = {modeAttribute: initialMode}
         for (k, v) in six.iteritems(attrs):
             if isinstance(v, type) and issubclass(v, mode):
                 for (methName, methDef) in six.iteritems(v.__dict__):
@@ -130,6 +130,6 @@ class Modal(object):
 
     def transitionTo(self, stateName):
         self.__exit__()
-        self.mode = stateName
+        setattr(self, self.modeAttribute, stateName)
         self.__enter__()
 
-- 
2.43.0


From 86b5e5ea03175e48cb5650c80dd9cc0ed5c7b8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:26 +0000
Subject: [PATCH 21/75] fix: the docstring of a mode is not one of its methods

---
 epsilon/modal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/epsilon/modal.py b/epsilon/modal.py
index 84b38c5..1960ca9 100644
--- a/epsilon/modal.py
+++ b/epsilon/modal.py
@@ -105,7 +105,8 @@ class ModalType(type):
         for (k, v) in six.iteritems(attrs):
             if isinstance(v, type) and issubclass(v, mode):
                 for (methName, methDef) in six.iteritems(v.__dict__):
-                    if methName not in ('__module__', '__file__', '__name__'):
+                    if methName not in ('__module__', '__file__', '__name__',
+                                        '__doc__', '__qualname__'):
                         implementations.setdefault(methName, {})[k] = methDef
             keepAttrs[k] = v
 
-- 
2.43.0


From 6221fff08e85b9e3c494712693a99eefa68e413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:28 +0000
Subject: [PATCH 22/75] fix: remember None, too

---
 epsilon/remember.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/epsilon/remember.py b/epsilon/remember.py
index 148c670..dde2acc 100644
--- a/epsilon/remember.py
+++ b/epsilon/remember.py
@@ -27,9 +27,8 @@ class remembered(record('creationFunction')):
         C{creationFunction} to create it.
         """
         remembername = "_remembered_" + self.creationFunction.__name__
-        rememberedval = oself.__dict__.get(remembername, None)
-        if rememberedval is not None:
-            return rememberedval
+        if remembername in oself.__dict__:
+            return oself.__dict__[remembername]
         rememberme = self.creationFunction(oself)
         oself.__dict__[remembername] = rememberme
         return rememberme
-- 
2.43.0


From f53856cd61023f7ca8567b0abe63b5f5e1219797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:15 +0000
Subject: [PATCH 23/75] fix: benchmark processes recognize start and stop
 events on Python 3

---
 epsilon/scripts/benchmark.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index 1b28212..c3a15a4 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -230,8 +230,8 @@ class Change(object):
 
 class BenchmarkProcess(BasicProcess):
 
-    START = '\0'
-    STOP = '\1'
+    START = b'\0'
+    STOP = b'\1'
 
 
     def __init__(self, *a, **kw):
@@ -266,7 +266,7 @@ class BenchmarkProcess(BasicProcess):
     def childDataReceived(self, childFD, data):
         if childFD == self.BACKCHANNEL_OUT:
             self.resetTimeout()
-            for byte in data:
+            for byte in map(six.int2byte, six.iterbytes(data)):
                 if byte == self.START:
                     self.startTiming()
                 elif byte == self.STOP:
-- 
2.43.0


From fb43bcc86c0e60c2ac08ece2f87df76838cd8969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:17 +0000
Subject: [PATCH 24/75] fix: only the filesystem mounted above the working
 directory last is its device

---
 epsilon/scripts/benchmark.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index c3a15a4..c6852bb 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -424,9 +424,10 @@ def discoverCurrentWorkingDevice(procMounts='/proc/self/mounts'):
     with io.open(procMounts, 'r') as f:
         for L in f:
             parts = L.split()
-            if cwd.startswith(parts[1]):
+            if (cwd + '/').startswith(parts[1].rstrip('/') + '/'):
                 possibilities.append((len(parts[1]), parts[0]))
-    possibilities.sort()
+    # the last of several mounts on one mount point hides the others
+    possibilities.sort(key=lambda possibility: possibility[0])
     try:
         return possibilities[-1][-1]
     except IndexError:
-- 
2.43.0


From 57ffab7e8ae2a69d5757ebf7ca2484ff154f24c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:19 +0000
Subject: [PATCH 25/75] fix: Tracer.uninstall stops tracing new threads

---
 epsilon/spewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/spewer.py b/epsilon/spewer.py
index f11d032..9979848 100644
--- a/epsilon/spewer.py
+++ b/epsilon/spewer.py
@@ -22,7 +22,7 @@ class Tracer(object):
     def uninstall(self):
         self.installed = False
         sys.settrace(None)
-        threading.setttrace(None)
+        threading.settrace(None)
 
     def toggle(self):
         if self.installed:
-- 
2.43.0


From 62e106025a6f70928132dbfcb561237b11c4d479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:21 +0000
Subject: [PATCH 26/75] fix: Spewer formats arguments on Python 3

---
 epsilon/spewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/spewer.py b/epsilon/spewer.py
index 9979848..f569c77 100644
--- a/epsilon/spewer.py
+++ b/epsilon/spewer.py
@@ -66,7 +66,7 @@ def extractArgs(frame):
 
 
 def formatArgs(args):
-    return ', '.join(['='.join((k, reflect.safe_repr(v))) for (k, v) in args.iteritems()])
+    return ', '.join(['='.join((k, reflect.safe_repr(v))) for (k, v) in args.items()])
 
 
 class Spewer(Tracer):
-- 
2.43.0


From f2077a56f63b9844b902a062d3f344551c6bc675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:23 +0000
Subject: [PATCH 27/75] fix: asplode writes its files on Python 3

---
 epsilon/asplode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/asplode.py b/epsilon/asplode.py
index f04e56a..4a27211 100644
--- a/epsilon/asplode.py
+++ b/epsilon/asplode.py
@@ -21,7 +21,7 @@ def splode(linerator, proj, capproj):
                 os.makedirs(os.path.dirname(fname))
             except:
                 pass
-            current = file(fname, 'wb')
+            current = open(fname, 'w')
             status('Created: ' + fname)
         else:
             current.write(line)
-- 
2.43.0


From c0681ab8cc7481babc44384d87bbf063e99347a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:56 +0000
Subject: [PATCH 28/75] fix: make epsilon.process importable on Python 3

---
 epsilon/process.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/epsilon/process.py b/epsilon/process.py
index 3a4c2c7..eee3f32 100644
--- a/epsilon/process.py
+++ b/epsilon/process.py
@@ -5,12 +5,11 @@
 Process and stdio related functionality.
 """
 
-import os, sys, imp
-
-from zope.interface import implements
+import os, sys
 
 from twisted.internet import reactor
-from twisted.application.service import IService, Service
+from twisted.python.modules import getModule
+from twisted.application.service import Service
 from twisted.internet.stdio import StandardIO
 
 from epsilon.structlike import record
@@ -31,7 +30,11 @@ def spawnProcess(processProtocol, executable, args=(), env={},
 
     pythonpath = []
     for pkg in packages:
-        p = os.path.split(imp.find_module(pkg)[1])[0]
+        module = getModule(pkg)
+        location = module.filePath.parent()
+        if module.isPackage():
+            location = location.parent()
+        p = location.path
         if p.startswith(os.path.join(sys.prefix, 'lib')):
             continue
         pythonpath.append(p)
-- 
2.43.0


From f84a8cb8139a3c19ab99b273ced6d785f968083e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:38 +0000
Subject: [PATCH 29/75] fix: requiring deferredgenerator_tfailure is harmless
 where Twisted has no deferredGenerator

---
 epsilon/hotfix.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/epsilon/hotfix.py b/epsilon/hotfix.py
index d8ad39d..ed51b26 100644
--- a/epsilon/hotfix.py
+++ b/epsilon/hotfix.py
@@ -35,7 +35,11 @@ def require(packageName, fixName):
             d = defer.waitForDeferred(defer.succeed(1))
             yield d
             result.append(d.getResult())
-        defer.deferredGenerator(test)()
+        if hasattr(defer, 'deferredGenerator'):
+            defer.deferredGenerator(test)()
+        else:
+            # It's not there to be fixed any more.
+            result.append(None)
         if result == [1]:
             from epsilon.hotfixes import deferredgenerator_tfailure
             deferredgenerator_tfailure.install()
-- 
2.43.0


From c528b2c7fcd517619ca09cc0eacf2385f6de12eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:50 +0000
Subject: [PATCH 30/75] fix: juice commands can have an argument named f

---
 epsilon/juice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 6990b4d..ed033fc 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -227,7 +227,7 @@ class DispatchMixin:
                 desc = str(error.value)
                 return Failure(RemoteJuiceError(
                         code, desc, key in command.fatalErrors))
-            return maybeDeferred(aCallable, **kw).addCallback(
+            return maybeDeferred(lambda: aCallable(**kw)).addCallback(
                 command.makeResponse, proto).addErrback(
                 checkKnownErrors)
         return doit
-- 
2.43.0


From 058b3f4620fb26df0f22aeabc30d10f597d87f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:17 +0000
Subject: [PATCH 31/75] fix: react tolerates a reactor which is being stopped
 by something else

---
 epsilon/react.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/epsilon/react.py b/epsilon/react.py
index e6bfed3..4488ed1 100644
--- a/epsilon/react.py
+++ b/epsilon/react.py
@@ -5,6 +5,7 @@
 Utilities for running the reactor for a while.
 """
 
+from twisted.internet.error import ReactorNotRunning
 from twisted.python.log import err
 
 
@@ -26,9 +27,15 @@ def react(reactor, main, argv):
     reactor.addSystemEventTrigger('before', 'shutdown', stopping.append, True)
     finished = main(reactor, *argv)
     finished.addErrback(err, "main function encountered error")
+    def stop():
+        try:
+            reactor.stop()
+        except ReactorNotRunning:
+            # Something else has stopped it, in this very iteration.
+            pass
     def cbFinish(ignored):
         if not stopping:
-            reactor.callWhenRunning(reactor.stop)
+            reactor.callWhenRunning(stop)
     finished.addCallback(cbFinish)
     reactor.run()
 
-- 
2.43.0


From 166d8ab55a39fc4de221e4bed585fdc6884cbd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:23 +0000
Subject: [PATCH 32/75] fix: Spewer shows keyword-only arguments, and *args and
 **kw next to them

---
 epsilon/spewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/spewer.py b/epsilon/spewer.py
index f569c77..829a799 100644
--- a/epsilon/spewer.py
+++ b/epsilon/spewer.py
@@ -55,7 +55,7 @@ class Tracer(object):
 def extractArgs(frame):
     co = frame.f_code
     dict = frame.f_locals
-    n = co.co_argcount
+    n = co.co_argcount + getattr(co, 'co_kwonlyargcount', 0)
     if co.co_flags & 4: n = n+1
     if co.co_flags & 8: n = n+1
     result = {}
-- 
2.43.0


From 2d7e6ebe48e6767c31ac0ba10360ce95a2907bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:55 +0000
Subject: [PATCH 33/75] fix: use the right offset for timezones from pytz

A datetime created with a timezone of pytz, or moved by arithmetic, has the
zone's local mean time or the offset of where it came from.  Times read from
ISO 8601 text and struct_times, or from 'noon' and '3:00 pm' across the begin
or end of DST, were off by that, as were the bounds of days.
---
 epsilon/extime.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 44f5832..424f359 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -83,6 +83,22 @@ def _timedeltaToSeconds(offset):
             (offset.seconds) +
             (offset.microseconds * 1e-6))
 
+def _localize(dtime):
+    """
+    Give a datetime the offset its timezone has at that time of its clock.
+
+    Timezones of pytz can't do so on their own when a datetime is created with
+    them or changed by arithmetic; others always do.
+
+    @param dtime: a L{datetime.datetime}, naive or not.
+
+    @return: a L{datetime.datetime} with the same clock time.
+    """
+    localize = getattr(dtime.tzinfo, 'localize', None)
+    if localize is None:
+        return dtime
+    return localize(dtime.replace(tzinfo=None))
+
 class FixedOffset(datetime.tzinfo):
     _zeroOffset = datetime.timedelta()
 
@@ -243,7 +259,7 @@ class Time(object):
         if dtthen < dtnow:
             dtthen += datetime.timedelta(days=1)
 
-        self = klass.fromDatetime(dtthen)
+        self = klass.fromDatetime(_localize(dtthen))
         self.resolution = datetime.timedelta(minutes=1)
         return self
 
@@ -261,7 +277,7 @@ class Time(object):
         if dtthen < dtnow:
             dtthen += datetime.timedelta(days=1)
 
-        self = klass.fromDatetime(dtthen)
+        self = klass.fromDatetime(_localize(dtthen))
         self.resolution = datetime.timedelta(minutes=1)
         return self
 
@@ -572,7 +588,7 @@ class Time(object):
             timezone = calculateTimezone()
         else:
             timezone = None
-        self = klass.fromDatetime(calculateDtime(timezone))
+        self = klass.fromDatetime(_localize(calculateDtime(timezone)))
         self.resolution = determineResolution()
         return self
 
@@ -591,7 +607,7 @@ class Time(object):
         ignored.
         """
         dtime = datetime.datetime(tzinfo=tzinfo, *structTime[:6])
-        self = klass.fromDatetime(dtime)
+        self = klass.fromDatetime(_localize(dtime))
         self.resolution = datetime.timedelta(seconds=1)
         return self
 
@@ -918,8 +934,9 @@ class Time(object):
             time = self._time
 
         return (
-            min(self.fromDatetime(time), self.fromDatetime(self._time)),
-            max(self.fromDatetime(time + self.resolution),
+            min(self.fromDatetime(_localize(time)),
+                self.fromDatetime(self._time)),
+            max(self.fromDatetime(_localize(time + self.resolution)),
                 self.fromDatetime(self._time + self.resolution))
         )
 
-- 
2.43.0


From 31e0dd2ccaa3cef533ecafbbd84c4f90fc6d113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:06 +0000
Subject: [PATCH 34/75] fix: preparing for TLS twice doesn't lose what waits
 for it

prepareTLS replaced the boxes which wait for TLS to start by an empty list
when it was called again.
---
 epsilon/juice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index ed033fc..797deea 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -843,7 +843,8 @@ class Juice(LineReceiver, JuiceParserBase, object):
     _startingTLSBuffer = None
 
     def prepareTLS(self):
-        self._startingTLSBuffer = []
+        if self._startingTLSBuffer is None:
+            self._startingTLSBuffer = []
 
     def startTLS(self, certificate, *verifyAuthorities):
         if self.hostCertificate is None:
-- 
2.43.0


From ef999a1e6a3bc1bc0fed29b0819ec30dc5d6664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:03 +0000
Subject: [PATCH 35/75] fix: LineReceiver delivers nothing after raw data which
 closed the connection

What followed the raw data in the same chunk was still delivered as a line.
---
 epsilon/liner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/epsilon/liner.py b/epsilon/liner.py
index 6675b75..c394dc9 100644
--- a/epsilon/liner.py
+++ b/epsilon/liner.py
@@ -44,6 +44,8 @@ class LineReceiver(Protocol):
         while self._extra:
             extra, self._extra = self._extra, b''
             self._dataReceived(extra)
+            if self.isDisconnecting():
+                self._extra = b''
 
     def _dataReceived(self, data):
         buffer = self.buffer
-- 
2.43.0


From 74fe01c6f83c8813ee29d7ae02efcbff25144bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:50 +0000
Subject: [PATCH 36/75] fix: Spewer's indentation survives exceptions

---
 epsilon/spewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/spewer.py b/epsilon/spewer.py
index 829a799..4e77154 100644
--- a/epsilon/spewer.py
+++ b/epsilon/spewer.py
@@ -105,7 +105,7 @@ class Spewer(Tracer):
             id(threading.currentThread()),
             self.callDepth * ' ',
             reflect.safe_repr(arg),))
-        self.callDepth = max(0, self.callDepth - 1)
+        # There'll be a 'return' event as well, if it leaves the function.
 
 
 class SignalService(service.Service):
-- 
2.43.0


From ed05648855e710a8e9b986215b1f7cd589e49b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:50 +0000
Subject: [PATCH 37/75] fix: spawnProcess doesn't put the working directory on
 an empty PYTHONPATH

---
 epsilon/process.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epsilon/process.py b/epsilon/process.py
index eee3f32..2407ce3 100644
--- a/epsilon/process.py
+++ b/epsilon/process.py
@@ -39,7 +39,9 @@ def spawnProcess(processProtocol, executable, args=(), env={},
             continue
         pythonpath.append(p)
     pythonpath = list(set(pythonpath))
-    pythonpath.extend(env.get('PYTHONPATH', '').split(os.pathsep))
+    if env.get('PYTHONPATH'):
+        # an empty one is none at all, not one naming the working directory
+        pythonpath.extend(env['PYTHONPATH'].split(os.pathsep))
     env['PYTHONPATH'] = os.pathsep.join(pythonpath)
 
     return reactor.spawnProcess(processProtocol, executable, args,
-- 
2.43.0


From 4361027d3210298d47ac4fb281afdf0f4b7e7120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:50 +0000
Subject: [PATCH 38/75] fix: regenerating plugin caches survives a ValueError
 without arguments

---
 epsilon/setuphelper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/setuphelper.py b/epsilon/setuphelper.py
index 479e503..f143a35 100644
--- a/epsilon/setuphelper.py
+++ b/epsilon/setuphelper.py
@@ -13,7 +13,7 @@ def pluginModules(moduleNames):
         except ImportError:
             pass
         except ValueError as ve:
-            if ve.args[0] != 'Empty module name':
+            if ve.args[:1] != ('Empty module name',):
                 traceback.print_exc()
         except:
             traceback.print_exc()
-- 
2.43.0


From 8b24cf6056358421384a08c94bd132bf4b82d1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:50 +0000
Subject: [PATCH 39/75] fix: a line receiver which closes its connection gets
 no lines which still arrive

---
 epsilon/liner.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/epsilon/liner.py b/epsilon/liner.py
index c394dc9..d1062ae 100644
--- a/epsilon/liner.py
+++ b/epsilon/liner.py
@@ -43,9 +43,8 @@ class LineReceiver(Protocol):
         self._extra += data
         while self._extra:
             extra, self._extra = self._extra, b''
-            self._dataReceived(extra)
-            if self.isDisconnecting():
-                self._extra = b''
+            if not self.isDisconnecting():
+                self._dataReceived(extra)
 
     def _dataReceived(self, data):
         buffer = self.buffer
-- 
2.43.0


From fd4afd1d7a82ec23dc7dcc58d3b0ce4d71821efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:31 +0000
Subject: [PATCH 40/75] fix: a command which switches protocols is done in the
 namespace given

---
 epsilon/juice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 797deea..94f341f 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -704,7 +704,7 @@ class ProtocolSwitchCommand(Command):
     makeResponse = classmethod(makeResponse)
 
     def do(self, proto, namespace=None):
-        d = super(ProtocolSwitchCommand, self).do(proto)
+        d = super(ProtocolSwitchCommand, self).do(proto, namespace)
         proto._lock()
         def switchNow(ign):
             innerProto = self.protoToSwitchToFactory.buildProtocol(proto.transport.getPeer())
-- 
2.43.0


From 41bba9cf35461c5ba6dc79091714fc2af13b5617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:26 +0000
Subject: [PATCH 41/75] fix: datetimes in a FixedOffset can be copied and
 pickled

---
 epsilon/extime.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 424f359..d75b2a7 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -105,6 +105,10 @@ class FixedOffset(datetime.tzinfo):
     def __init__(self, hours, minutes):
         self.offset = datetime.timedelta(minutes = hours * 60 + minutes)
 
+    def __getinitargs__(self):
+        # Copying and unpickling set the offset afterwards.
+        return (0, 0)
+
     def utcoffset(self, dt):
         return self.offset
 
-- 
2.43.0


From 82ac18e81fc5fd75ddbe847845b50e0c2ff6334a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:29 +0000
Subject: [PATCH 42/75] fix: juice commands inherit the errors they declare

---
 epsilon/juice.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 94f341f..6e33100 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -598,13 +598,15 @@ class _CommandMeta(type):
         def __new__(cls, name, bases, attrs):
             re = attrs['reverseErrors'] = {}
             er = attrs['allErrors'] = {}
-            for v, k in six.viewitems(attrs.get('errors',{})):
+            newtype = type.__new__(cls, name, bases, attrs)
+            # these may have been inherited
+            for v, k in six.viewitems(newtype.errors):
                 re[k] = v
                 er[v] = k
-            for v, k in six.viewitems(attrs.get('fatalErrors',{})):
+            for v, k in six.viewitems(newtype.fatalErrors):
                 re[k] = v
                 er[v] = k
-            return type.__new__(cls, name, bases, attrs)
+            return newtype
 
 
 @six.add_metaclass(_CommandMeta)
-- 
2.43.0


From fb9a57464ddfe2ee014f475db6f623bed3484903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:52 +0000
Subject: [PATCH 43/75] fix: the scheduling and standard I/O services say
 whether they are running

---
 epsilon/cooperator.py | 2 ++
 epsilon/process.py    | 1 +
 2 files changed, 3 insertions(+)

diff --git a/epsilon/cooperator.py b/epsilon/cooperator.py
index a6b6113..8b3f2e0 100644
--- a/epsilon/cooperator.py
+++ b/epsilon/cooperator.py
@@ -22,9 +22,11 @@ class SchedulingService(Service):
         return self.coop.coiterate(iterator)
 
     def startService(self):
+        Service.startService(self)
         self.coop.start()
 
     def stopService(self):
+        Service.stopService(self)
         self.coop.stop()
 
 __all__ = [
diff --git a/epsilon/process.py b/epsilon/process.py
index 2407ce3..b646856 100644
--- a/epsilon/process.py
+++ b/epsilon/process.py
@@ -69,4 +69,5 @@ class StandardIOService(record('protocol'), Service):
         """
         Connect C{self.protocol} to standard io.
         """
+        Service.startService(self)
         StandardIO(self.protocol)
-- 
2.43.0


From 24bb8fffa01ba618626aea495858a43e2068f9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:12 +0000
Subject: [PATCH 44/75] fix: make the AMP examples of the documentation work
 with Python 3

They used print statements, and native strings where AMP has byte strings
(argument names, user names, passwords and pads).
---
 doc/listings/amp/amp_auth_client.py | 4 ++--
 doc/listings/amp/amp_auth_server.py | 8 ++++----
 doc/listings/amp/auth_client.py     | 4 ++--
 doc/listings/amp/auth_server.py     | 8 ++++----
 doc/listings/amp/route_client.py    | 2 +-
 doc/listings/amp/route_server.py    | 2 +-
 doc/listings/amp/route_setup.py     | 4 ++--
 7 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/doc/listings/amp/amp_auth_client.py b/doc/listings/amp/amp_auth_client.py
index d6c421f..98675e4 100644
--- a/doc/listings/amp/amp_auth_client.py
+++ b/doc/listings/amp/amp_auth_client.py
@@ -20,11 +20,11 @@ def add(proto):
 
 
 def display(result):
-    print result
+    print(result)
 
 
 def otpLogin(client):
-    client.callRemote(OTPLogin, pad='pad')
+    client.callRemote(OTPLogin, pad=b'pad')
     return client
 
 
diff --git a/doc/listings/amp/amp_auth_server.py b/doc/listings/amp/amp_auth_server.py
index 528b1be..87eb2ad 100644
--- a/doc/listings/amp/amp_auth_server.py
+++ b/doc/listings/amp/amp_auth_server.py
@@ -20,10 +20,10 @@ class Add(Command):
     An example of an application-defined command which should be made available
     to clients after they successfully authenticate.
     """
-    arguments = [("left", Integer()),
-                 ("right", Integer())]
+    arguments = [(b"left", Integer()),
+                 (b"right", Integer())]
 
-    response = [("sum", Integer())]
+    response = [(b"sum", Integer())]
 
 
 
@@ -64,7 +64,7 @@ def main():
     Start the AMP server and the reactor.
     """
     startLogging(stdout)
-    checker = OneTimePadChecker({'pad': 0})
+    checker = OneTimePadChecker({b'pad': 0})
     realm = AdditionRealm()
     factory = CredAMPServerFactory(Portal(realm, [checker]))
     reactor.listenTCP(7805, factory)
diff --git a/doc/listings/amp/auth_client.py b/doc/listings/amp/auth_client.py
index 502b54f..2a489de 100644
--- a/doc/listings/amp/auth_client.py
+++ b/doc/listings/amp/auth_client.py
@@ -20,13 +20,13 @@ def add(proto):
 
 
 def display(result):
-    print result
+    print(result)
 
 
 def main(reactor):
     cc = ClientCreator(reactor, AMP)
     d = cc.connectTCP('localhost', 7805)
-    d.addCallback(login, UsernamePassword("testuser", "examplepass"))
+    d.addCallback(login, UsernamePassword(b"testuser", b"examplepass"))
     d.addCallback(add)
     d.addCallback(display)
     return d
diff --git a/doc/listings/amp/auth_server.py b/doc/listings/amp/auth_server.py
index bd4e302..618adc7 100644
--- a/doc/listings/amp/auth_server.py
+++ b/doc/listings/amp/auth_server.py
@@ -21,10 +21,10 @@ class Add(Command):
     An example of an application-defined command which should be made available
     to clients after they successfully authenticate.
     """
-    arguments = [("left", Integer()),
-                 ("right", Integer())]
+    arguments = [(b"left", Integer()),
+                 (b"right", Integer())]
 
-    response = [("sum", Integer())]
+    response = [(b"sum", Integer())]
 
 
 
@@ -66,7 +66,7 @@ def main():
     """
     startLogging(stdout)
     checker = InMemoryUsernamePasswordDatabaseDontUse()
-    checker.addUser("testuser", "examplepass")
+    checker.addUser(b"testuser", b"examplepass")
     realm = AdditionRealm()
     factory = CredAMPServerFactory(Portal(realm, [checker]))
     reactor.listenTCP(7805, factory)
diff --git a/doc/listings/amp/route_client.py b/doc/listings/amp/route_client.py
index 69d2bfd..8ffacd7 100644
--- a/doc/listings/amp/route_client.py
+++ b/doc/listings/amp/route_client.py
@@ -14,7 +14,7 @@ from route_server import Count
 
 
 def display(value, id):
-    print id, value
+    print(id, value)
 
 
 class CountClient(AMP):
diff --git a/doc/listings/amp/route_server.py b/doc/listings/amp/route_server.py
index 277faa0..9ba0017 100644
--- a/doc/listings/amp/route_server.py
+++ b/doc/listings/amp/route_server.py
@@ -10,7 +10,7 @@ from route_setup import AMPRouteServerFactory
 
 
 class Count(Command):
-    response = [('value', Integer())]
+    response = [(b'value', Integer())]
 
 
 
diff --git a/doc/listings/amp/route_setup.py b/doc/listings/amp/route_setup.py
index 3412850..2cee540 100644
--- a/doc/listings/amp/route_setup.py
+++ b/doc/listings/amp/route_setup.py
@@ -9,8 +9,8 @@ from epsilon.amprouter import Router
 
 
 class NewRoute(Command):
-    arguments = [('name', Unicode())]
-    response = [('name', Unicode())]
+    arguments = [(b'name', Unicode())]
+    response = [(b'name', Unicode())]
 
 
 
-- 
2.43.0


From 5b12e43de6ee969f7a1ad04a37f1779d6c2bad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:07 +0000
Subject: [PATCH 45/75] fix: write the hour and timezone of periods of several
 hours in ISO 8601

A period of more than an hour, but less than a day, which starts at midnight
in some timezone was written as a date without hour and timezone, which is
read as the start of that date in UTC.
---
 epsilon/extime.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index d75b2a7..39b3bd0 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -822,6 +822,10 @@ class Time(object):
         # calls for (weeks start in the middle of months, for example), so use
         # whatever finer parts are needed to address its start.
         resolution = self.resolution
+        if (self.isTimezoneDependent()
+            and resolution > datetime.timedelta(hours=1)):
+            # Without an hour, there is no timezone either.
+            resolution = datetime.timedelta(hours=1)
         for value, default, unit in [
             (dtime.month, 1, datetime.timedelta(days=31)),
             (dtime.day, 1, datetime.timedelta(days=1)),
-- 
2.43.0


From 5a05cb7d0a6767ae96f9087880c2f859c3933bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:49 +0000
Subject: [PATCH 46/75] fix: modes inherit methods, from other modes and from
 those of base classes

Modes which don't define __enter__ and __exit__ have the ones which mode
defines, as its documentation says, instead of failing on every transition.
A modal class derived from another one which adds or extends a mode no longer
loses the methods of that name of the other modes.
---
 epsilon/modal.py | 42 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/epsilon/modal.py b/epsilon/modal.py
index 1960ca9..65c7d10 100644
--- a/epsilon/modal.py
+++ b/epsilon/modal.py
@@ -49,10 +49,6 @@ class mode(object):
     subclass should have the same name as the mode it is defining.
     """
 
-    # XXX fix the simple, but wrong, __dict__ magic in ModalType.__new__ so
-    # that this __enter__ and __exit__ are actually called, maybe we can even
-    # do some logging or something.
-
     def __exit__(self):
         """
         The mode has just been exited.
@@ -81,6 +77,37 @@ def _getInheritedAttribute(classname, attrname, bases, attrs):
 
 
 
+def _definitions(modeType):
+    """
+    The attributes of a mode, including those it inherits from other modes.
+    """
+    definitions = {}
+    for cls in reversed(modeType.__mro__):
+        if issubclass(cls, mode) and cls is not mode:
+            definitions.update(cls.__dict__)
+    return definitions
+
+
+
+def _inheritImplementations(methName, methDefs, bases, modeNames):
+    """
+    Add to the implementations of a method those of the modes of the base
+    classes, and for the given modes, those of L{mode} itself.
+    """
+    for base in bases:
+        for cls in base.__mro__:
+            if methName in cls.__dict__:
+                inherited = cls.__dict__[methName]
+                if isinstance(inherited, ModalMethod):
+                    for (modeName, methDef) in six.iteritems(inherited.methods):
+                        methDefs.setdefault(modeName, methDef)
+                break
+    for modeName in modeNames:
+        if methName in ('__enter__', '__exit__'):
+            methDefs.setdefault(modeName, mode.__dict__[methName])
+
+
+
 class ModalType(type):
     """Metaclass for defining modal classes.
 
@@ -100,17 +127,22 @@ class ModalType(type):
         # dict maps names of modes to implementations of that method
         # for that mode.
         implementations = {}
+        modeNames = []
 
         keepAttrs = {modeAttribute: initialMode}
         for (k, v) in six.iteritems(attrs):
             if isinstance(v, type) and issubclass(v, mode):
-                for (methName, methDef) in six.iteritems(v.__dict__):
+                modeNames.append(k)
+                implementations.setdefault('__enter__', {})
+                implementations.setdefault('__exit__', {})
+                for (methName, methDef) in six.iteritems(_definitions(v)):
                     if methName not in ('__module__', '__file__', '__name__',
                                         '__doc__', '__qualname__'):
                         implementations.setdefault(methName, {})[k] = methDef
             keepAttrs[k] = v
 
         for (methName, methDefs) in six.viewitems(implementations):
+            _inheritImplementations(methName, methDefs, bases, modeNames)
             keepAttrs[methName] = ModalMethod(methName, methDefs, modeAttribute)
 
         return super(ModalType, cls).__new__(cls, name, bases, keepAttrs)
-- 
2.43.0


From a32b7966290ce21827b676e9d4113439b8f37818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:51 +0000
Subject: [PATCH 47/75] fix: don't take the directory setup.py is in for a
 package

With a plugins directory (or an __init__.py) in it, autosetup() failed.
---
 epsilon/setuphelper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/epsilon/setuphelper.py b/epsilon/setuphelper.py
index f143a35..2973d55 100644
--- a/epsilon/setuphelper.py
+++ b/epsilon/setuphelper.py
@@ -41,6 +41,9 @@ def autosetup(**kw):
     for (dirpath, dirnames, filenames) in os.walk(os.curdir):
         dirnames[:] = [p for p in dirnames if not p.startswith('.')]
         pkgName = dirpath[2:].replace('/', '.')
+        if not pkgName:
+            # Where the packages are, not one itself
+            continue
         if '__init__.py' in filenames:
             # The current directory is a Python package
             packages.append(pkgName)
-- 
2.43.0


From 37439e6c935cc34e4b9dac1171e5529245418a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:53 +0000
Subject: [PATCH 48/75] fix: make packages within packages importable by
 spawned processes

The directory which goes into PYTHONPATH is the one which contains the
outermost package.
---
 epsilon/process.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/epsilon/process.py b/epsilon/process.py
index b646856..cd8fcbb 100644
--- a/epsilon/process.py
+++ b/epsilon/process.py
@@ -34,6 +34,9 @@ def spawnProcess(processProtocol, executable, args=(), env={},
         location = module.filePath.parent()
         if module.isPackage():
             location = location.parent()
+        for ignored in range(pkg.count('.')):
+            # It's the outermost package which has to be found there.
+            location = location.parent()
         p = location.path
         if p.startswith(os.path.join(sys.prefix, 'lib')):
             continue
-- 
2.43.0


From 9daadce64bd78f5d7721d7006b49547497f82340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:13 +0000
Subject: [PATCH 49/75] fix: fromHumanly took digits and letters of other
 scripts for ASCII ones

---
 epsilon/extime.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 39b3bd0..8848352 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -14,6 +14,11 @@ from epsilon.compat import cmp
 
 _EPOCH = datetime.datetime.utcfromtimestamp(0)
 
+# Digits and letters of other scripts, which patterns match with Python 3 unless
+# told otherwise (even 's' matches another letter when case is ignored), are not
+# part of any of the formats.
+_ASCII = getattr(re, 'ASCII', 0)
+
 
 class InvalidPrecision(Exception):
     """
@@ -306,20 +311,20 @@ class Time(object):
                 | sunday
             )
             \b
-            """, re.IGNORECASE | re.VERBOSE),
+            """, re.IGNORECASE | re.VERBOSE | _ASCII),
             _fromWeekday),
-        (re.compile(r"\b(today|tomorrow|yesterday)\b", re.IGNORECASE),
+        (re.compile(r"\b(today|tomorrow|yesterday)\b", re.IGNORECASE | _ASCII),
             _fromTodayOrTomorrow),
         (re.compile(r"""
             \b
             (?P<hour>\d{1,2}):(?P<minute>\d{2})
             (\s*(?P<ampm>am|pm))?
             \b
-            """, re.IGNORECASE | re.VERBOSE),
+            """, re.IGNORECASE | re.VERBOSE | _ASCII),
             _fromTime),
-        (re.compile(r"\b(noon|midnight)\b", re.IGNORECASE),
+        (re.compile(r"\b(noon|midnight)\b", re.IGNORECASE | _ASCII),
             _fromNoonOrMidnight),
-        (re.compile(r"\b(now)\b", re.IGNORECASE),
+        (re.compile(r"\b(now)\b", re.IGNORECASE | _ASCII),
             _fromNow),
     ]
 
-- 
2.43.0


From 56c0557551a8c4e225c0a1f70a13bd211b43e4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:13 +0000
Subject: [PATCH 50/75] fix: fromISO8601TimeAndDate accepted a trailing newline
 and digits of other scripts

---
 epsilon/extime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 8848352..387ea45 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -416,7 +416,7 @@ class Time(object):
                     )?
                 )?
             )?
-        )? $""", re.VERBOSE)
+        )? \Z""", re.VERBOSE | _ASCII)
 
 
     def fromISO8601TimeAndDate(klass, iso8601string, tzinfo=None):
-- 
2.43.0


From c6d02b2e8e22762976bc4e79a6bc40ac93c6a274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:13 +0000
Subject: [PATCH 51/75] fix: fromRFC2822 raised OverflowError for offsets which
 lead out of the calendar

---
 epsilon/extime.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 387ea45..b3189de 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -679,11 +679,16 @@ class Time(object):
         offsetInSeconds = structTimePlus[-1]
         if offsetInSeconds is None:
             offsetInSeconds = 0
-        self = klass.fromStructTime(
-            structTimePlus,
-            FixedOffset(
-                hours=0,
-                minutes=offsetInSeconds // 60))
+        try:
+            self = klass.fromStructTime(
+                structTimePlus,
+                FixedOffset(
+                    hours=0,
+                    minutes=offsetInSeconds // 60))
+        except OverflowError:
+            # An absurd offset, or one which leads out of the calendar.
+            raise ValueError(
+                'RFC 2822 date is out of range %r' % (rfc822string,))
         self.resolution = datetime.timedelta(seconds=1)
         return self
 
-- 
2.43.0


From 215404082c9de6e69f6f2bd53da3e30602e29292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:13 +0000
Subject: [PATCH 52/75] fix: mount points with spaces weren't recognized by
 benchmark

---
 epsilon/scripts/benchmark.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index c6852bb..5b199bf 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -6,7 +6,7 @@ usage information and other statistics about it.
 """
 from __future__ import print_function
 
-import os, time, sys, socket, io, pprint, errno
+import os, re, time, sys, socket, io, pprint, errno
 
 import six
 import twisted
@@ -421,9 +421,11 @@ def discoverCurrentWorkingDevice(procMounts='/proc/self/mounts'):
     """
     possibilities = []
     cwd = os.getcwd()
-    with io.open(procMounts, 'r') as f:
+    with io.open(procMounts, 'r', newline='\n') as f:
         for L in f:
-            parts = L.split()
+            # Spaces and the like are written as octal escapes.
+            parts = [re.sub(r'\\([0-7]{3})', lambda m: chr(int(m.group(1), 8)), p)
+                     for p in L.split(' ')]
             if (cwd + '/').startswith(parts[1].rstrip('/') + '/'):
                 possibilities.append((len(parts[1]), parts[0]))
     # the last of several mounts on one mount point hides the others
-- 
2.43.0


From 5d482754d796f951b70ae4e66f33789f7bb5f185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:13 +0000
Subject: [PATCH 53/75] fix: getSize failed on unusual symbolic links

---
 epsilon/scripts/benchmark.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index 5b199bf..f2f950c 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -6,7 +6,7 @@ usage information and other statistics about it.
 """
 from __future__ import print_function
 
-import os, re, time, sys, socket, io, pprint, errno
+import os, re, time, sys, socket, io, pprint
 
 import six
 import twisted
@@ -452,13 +452,11 @@ def getOneSize(ch):
     """
     try:
         return ch.getsize()
-    except OSError as e:
-        if e.errno == errno.ENOENT:
-            # XXX FilePath is broken
-            if os.path.islink(ch.path):
-                return len(os.readlink(ch.path))
-            else:
-                raise
+    except OSError:
+        # XXX FilePath is broken
+        if os.path.islink(ch.path):
+            # It leads nowhere, for whatever reason.
+            return os.lstat(ch.path).st_size
         else:
             raise
 
-- 
2.43.0


From e111865ed2b6dbdde3969db08d720c83f7ab176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:13 +0000
Subject: [PATCH 54/75] fix: juice switched protocols, or tried to answer,
 after the connection was lost

---
 epsilon/juice.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 6e33100..6500fa9 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -331,6 +331,15 @@ class JuiceParserBase(DispatchMixin):
         for key, value in OR:
             value.errback(reason)
 
+    def _canAnswer(self):
+        """
+        Whether an answer to a command of the peer can (still) be sent.
+        """
+        # There are no outstanding requests, not even none, once the
+        # connection is lost.
+        return (self.transport is not None and
+                self._outstandingRequests is not None)
+
     def juiceBoxReceived(self, box):
         if debug:
             log.msg("Juice receive: %s" % pprint.pformat(dict(six.viewitems(box))))
@@ -350,7 +359,7 @@ class JuiceParserBase(DispatchMixin):
             def sendAnswer(answerBox):
                 if ASK not in box:
                     return
-                if self.transport is None:
+                if not self._canAnswer():
                     return
                 answerBox[ANSWER] = box[ASK]
                 answerBox.sendTo(self)
@@ -373,7 +382,7 @@ class JuiceParserBase(DispatchMixin):
                 errorBox[ERROR] = box[ASK]
                 errorBox[ERROR_DESCRIPTION] = desc
                 errorBox[ERROR_CODE] = code
-                if self.transport is not None:
+                if self._canAnswer():
                     errorBox.sendTo(self)
                 return None # intentionally stop the error here: don't log the
                             # traceback if it's handled, do log it (earlier) if
-- 
2.43.0


From bb281ac46e803c12df58aacb2b4fd9d0142822a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:13 +0000
Subject: [PATCH 55/75] fix: answers to earlier juice commands got into the
 protocol switched to, or closed the connection

---
 epsilon/juice.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 6500fa9..eeb9989 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -804,6 +804,8 @@ class Juice(LineReceiver, JuiceParserBase, object):
         """
 
         assert self.innerProtocol is None, "Protocol can only be safely switched once."
+        # From here on the connection is the new protocol's.
+        self._lock()
         self.setRawMode()
         self.innerProtocol = newProto
         self.innerProtocolClientFactory = clientFactory
@@ -811,6 +813,11 @@ class Juice(LineReceiver, JuiceParserBase, object):
 
     innerProtocolClientFactory = None
 
+    def _canAnswer(self):
+        # Commands from before may be answered only now, when what is written
+        # might arrive as a part of the other protocol.
+        return not self.__locked and super(Juice, self)._canAnswer()
+
     def juiceBoxReceived(self, box):
         if self.__locked and COMMAND in box and ASK in box:
             # This is a command which will trigger an answer, and we can no
-- 
2.43.0


From 501df11e2446888127a175a6fbbc90b895272331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:13 +0000
Subject: [PATCH 56/75] fix: juice boxes which wait for TLS were serialized
 late

---
 epsilon/juice.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index eeb9989..7ac9772 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -829,15 +829,16 @@ class Juice(LineReceiver, JuiceParserBase, object):
         """
         Send a juice.Box to my peer.
 
-        Note: transport.write is never called outside of this method.
+        Note: transport.write is never called outside of this method, except
+        by startTLS for what was sent since prepareTLS.
         """
         assert not self.__locked, "You cannot send juice packets when a connection is locked"
+        if debug:
+            log.msg("Juice send: %s" % pprint.pformat(dict(six.viewitems(completeBox))))
+        result = completeBox.serialize()
         if self._startingTLSBuffer is not None:
-            self._startingTLSBuffer.append(completeBox)
+            self._startingTLSBuffer.append(result)
         else:
-            if debug:
-                log.msg("Juice send: %s" % pprint.pformat(dict(six.viewitems(completeBox))))
-            result = completeBox.serialize()
             self.transport.write(result)
 
     def sendCommand(self, command, __content='', __answer=True, **kw):
@@ -872,8 +873,8 @@ class Juice(LineReceiver, JuiceParserBase, object):
             stlsb = self._startingTLSBuffer
             if stlsb is not None:
                 self._startingTLSBuffer = None
-                for box in stlsb:
-                    self.sendPacket(box)
+                for data in stlsb:
+                    self.transport.write(data)
         else:
             raise RuntimeError(
                 "Previously authenticated connection between %s and %s "
-- 
2.43.0


From 389039c0fb453ac1556d1b7aee53a7b4e9879938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:13 +0000
Subject: [PATCH 57/75] fix: a juice command which could not be sent was still
 waited for

---
 epsilon/juice.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 7ac9772..563db51 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -413,7 +413,13 @@ class JuiceParserBase(DispatchMixin):
             result = self._outstandingRequests[tag] = Deferred()
         else:
             result = None
-        box.sendTo(self)
+        try:
+            box.sendTo(self)
+        except:
+            # There will be no result for what wasn't sent.
+            if requiresAnswer and self._outstandingRequests is not None:
+                self._outstandingRequests.pop(tag, None)
+            raise
         return result
 
 
-- 
2.43.0


From ff20e3484149349348ceef9189b2f8bbbb17be2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:41 +0000
Subject: [PATCH 58/75] fix: let a record have an attribute named self

---
 epsilon/structlike.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epsilon/structlike.py b/epsilon/structlike.py
index a9cbbf8..4222858 100644
--- a/epsilon/structlike.py
+++ b/epsilon/structlike.py
@@ -67,7 +67,9 @@ class StructBehavior(object):
     __names__ = []
     __defaults__ = []
 
-    def __init__(self, *args, **kw):
+    def __init__(*args, **kw):
+        # Not a named parameter, because there may be an attribute called self.
+        self, args = args[0], args[1:]
         super(StructBehavior, self).__init__()
 
         # Turn all the args into kwargs
-- 
2.43.0


From d4b89210c371bc8c9ad94fa6e424dfc270eec04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:41 +0000
Subject: [PATCH 59/75] fix: refuse a record which names an attribute twice

---
 epsilon/structlike.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/epsilon/structlike.py b/epsilon/structlike.py
index 4222858..390b862 100644
--- a/epsilon/structlike.py
+++ b/epsilon/structlike.py
@@ -158,6 +158,10 @@ def record(*a, **kw):
         raise TypeError(
             "record must be called with zero or one positional arguments")
 
+    if len(set(attributeNames)) != len(attributeNames):
+        raise TypeError(
+            "Each attribute can be named only once: %r" % (attributeNames,))
+
     # Work like Python: allow defaults specified backwards from the end
     defaults = []
     for attributeName in attributeNames:
-- 
2.43.0


From 502eb2dc2f5767af84dccf2dd96df7cf3b17e70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:41 +0000
Subject: [PATCH 60/75] fix: compare and search a Caseless with things which
 aren't strings as a string does

---
 epsilon/caseless.py | 46 ++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/epsilon/caseless.py b/epsilon/caseless.py
index 79a46d4..5476798 100644
--- a/epsilon/caseless.py
+++ b/epsilon/caseless.py
@@ -3,6 +3,18 @@
 Helpers for case-insensitive string handling.
 """
 
+def _lower(other):
+    """
+    Lower what is a string; anything else is what it is, so that it's treated
+    as a string would.
+    """
+    lower = getattr(other, 'lower', None)
+    if lower is None:
+        return other
+    return lower()
+
+
+
 class Caseless(object):
     """
     Case-insensitive string wrapper type.
@@ -88,65 +100,65 @@ class Caseless(object):
     # Methods delegated to lower()
 
     def __cmp__(self, other):
-        return cmp(self.lower(), other.lower())
+        return cmp(self.lower(), _lower(other))
 
     def __eq__(self, other):
-        return self.lower() == other.lower()
+        return self.lower() == _lower(other)
 
     def __ne__(self, other):
-        return self.lower() != other.lower()
+        return self.lower() != _lower(other)
 
     def __lt__(self, other):
-        return self.lower() < other.lower()
+        return self.lower() < _lower(other)
 
     def __le__(self, other):
-        return self.lower() <= other.lower()
+        return self.lower() <= _lower(other)
 
     def __gt__(self, other):
-        return self.lower() > other.lower()
+        return self.lower() > _lower(other)
 
     def __ge__(self, other):
-        return self.lower() >= other.lower()
+        return self.lower() >= _lower(other)
 
     def __hash__(self):
         return hash(self.lower())
 
 
     def __contains__(self, substring):
-        return substring.lower() in self.lower()
+        return _lower(substring) in self.lower()
 
 
     def startswith(self, prefix, *rest):
         if isinstance(prefix, tuple):
-            lprefix = tuple(s.lower() for s in prefix)
+            lprefix = tuple(_lower(s) for s in prefix)
         else:
-            lprefix = prefix.lower()
+            lprefix = _lower(prefix)
         return self.lower().startswith(lprefix, *rest)
 
 
     def endswith(self, suffix, *rest):
         if isinstance(suffix, tuple):
-            lsuffix = tuple(s.lower() for s in suffix)
+            lsuffix = tuple(_lower(s) for s in suffix)
         else:
-            lsuffix = suffix.lower()
+            lsuffix = _lower(suffix)
         return self.lower().endswith(lsuffix, *rest)
 
 
     def count(self, substring, *rest):
-        return self.lower().count(substring.lower(), *rest)
+        return self.lower().count(_lower(substring), *rest)
 
 
     def find(self, substring, *rest):
-        return self.lower().find(substring.lower(), *rest)
+        return self.lower().find(_lower(substring), *rest)
 
 
     def index(self, substring, *rest):
-        return self.lower().index(substring.lower(), *rest)
+        return self.lower().index(_lower(substring), *rest)
 
 
     def rfind(self, substring, *rest):
-        return self.lower().rfind(substring.lower(), *rest)
+        return self.lower().rfind(_lower(substring), *rest)
 
 
     def rindex(self, substring, *rest):
-        return self.lower().rindex(substring.lower(), *rest)
+        return self.lower().rindex(_lower(substring), *rest)
-- 
2.43.0


From fed3f91277fc9b1bfa297bc9ddf7ccd3a27b4a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:41 +0000
Subject: [PATCH 61/75] fix: show what's traced whatever the encoding of the
 output

---
 epsilon/spewer.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/epsilon/spewer.py b/epsilon/spewer.py
index 4e77154..5d215fe 100644
--- a/epsilon/spewer.py
+++ b/epsilon/spewer.py
@@ -69,6 +69,16 @@ def formatArgs(args):
     return ', '.join(['='.join((k, reflect.safe_repr(v))) for (k, v) in args.items()])
 
 
+def _show(line):
+    """
+    Print something, whatever the encoding of the output.
+    """
+    try:
+        print(line)
+    except UnicodeError:
+        print(line.encode('ascii', 'backslashreplace').decode('ascii'))
+
+
 class Spewer(Tracer):
     callDepth = 0
 
@@ -85,7 +95,7 @@ class Spewer(Tracer):
         else:
             k = ''
 
-        print ("%X %s%s%s(%s)" % (
+        _show("%X %s%s%s(%s)" % (
             id(threading.currentThread()),
             self.callDepth * ' ',
             k,
@@ -94,14 +104,14 @@ class Spewer(Tracer):
 
     def trace_RETURN(self, frame, arg):
         if arg is not None:
-            print ("%X %s<= %s" % (
+            _show("%X %s<= %s" % (
                 id(threading.currentThread()),
                 self.callDepth * ' ',
                 reflect.safe_repr(arg),))
         self.callDepth = max(0, self.callDepth - 1)
 
     def trace_EXCEPTION(self, frame, arg):
-        print ("%X %s^- %s" % (
+        _show("%X %s^- %s" % (
             id(threading.currentThread()),
             self.callDepth * ' ',
             reflect.safe_repr(arg),))
-- 
2.43.0


From d3fc87bcc1bd74e112cad2c3bdac505fc8516841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:41 +0000
Subject: [PATCH 62/75] fix: trace methods of objects which don't tell their
 class

---
 epsilon/spewer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/epsilon/spewer.py b/epsilon/spewer.py
index 5d215fe..0f81ac9 100644
--- a/epsilon/spewer.py
+++ b/epsilon/spewer.py
@@ -87,9 +87,10 @@ class Spewer(Tracer):
 
         frameSelf = frame.f_locals.get('self')
         if frameSelf is not None:
-            if hasattr(frameSelf, '__class__'):
+            try:
                 k = reflect.qual(frameSelf.__class__)
-            else:
+            except Exception:
+                # Whatever it says about itself.
                 k = reflect.qual(type(frameSelf))
             k = k + '.'
         else:
-- 
2.43.0


From 385c44ce78e43a4568953dc19966b52aba1c5243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:41 +0000
Subject: [PATCH 63/75] fix: indent what's traced by the depth of the calls of
 its own thread

---
 epsilon/spewer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/epsilon/spewer.py b/epsilon/spewer.py
index 0f81ac9..2ee5ead 100644
--- a/epsilon/spewer.py
+++ b/epsilon/spewer.py
@@ -80,7 +80,17 @@ def _show(line):
 
 
 class Spewer(Tracer):
-    callDepth = 0
+    def _getCallDepth(self):
+        return getattr(self._ofThread(), 'callDepth', 0)
+
+    def _setCallDepth(self, callDepth):
+        self._ofThread().callDepth = callDepth
+
+    callDepth = property(_getCallDepth, _setCallDepth)
+
+    def _ofThread(self):
+        # Every thread has a stack of its own.
+        return self.__dict__.setdefault('_threads', threading.local())
 
     def trace_CALL(self, frame, arg):
         self.callDepth += 1
-- 
2.43.0


From c8020ccf7617cd00a62c4ec56869988744d08cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:41 +0000
Subject: [PATCH 64/75] fix: don't fail in the benchmark tool to signal a
 process which has just exited

---
 epsilon/scripts/benchmark.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index f2f950c..142c39c 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -131,7 +131,19 @@ class BasicProcess(protocol.ProcessProtocol, policies.TimeoutMixin):
 
     def timeoutConnection(self):
         self.timedOut = True
-        self.transport.signalProcess('KILL')
+        self.endProcess('KILL')
+
+
+    def endProcess(self, signalID):
+        """
+        Send a signal to the process, if it still exists.
+        """
+        try:
+            self.transport.signalProcess(signalID)
+        except error.ProcessExitedAlready:
+            # What it wrote before, or a process it left behind, has kept us
+            # from noticing.
+            pass
 
 
     def childDataReceived(self, childFD, data):
@@ -272,7 +284,7 @@ class BenchmarkProcess(BasicProcess):
                 elif byte == self.STOP:
                     self.stopTiming()
                 else:
-                    self.transport.signalProcess('QUIT')
+                    self.endProcess('QUIT')
         else:
             return BasicProcess.childDataReceived(self, childFD, data)
 
-- 
2.43.0


From ffa6cb23732070f1f02a4ae0cad789da83e1aeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:01 +0000
Subject: [PATCH 65/75] fix: accept the ISO 8601 year 9999

---
 epsilon/extime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index b3189de..7258282 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -521,8 +521,8 @@ class Time(object):
                 nextMonth = self._time.replace(month=self._time.month+1)
                 return nextMonth - self._time
             else:
-                nextYear = self._time.replace(year=self._time.year+1)
-                return nextYear - self._time
+                return datetime.timedelta(
+                    days=365 + calendar.isleap(self._time.year))
 
         def calculateDtime(tzinfo):
             """Calculate a datetime for the start of the addressed period."""
-- 
2.43.0


From ec4c7136d7de17613947bc5339f7720e4d72ada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:01 +0000
Subject: [PATCH 66/75] fix: reject ISO 8601 dates outside the calendar with
 ValueError

---
 epsilon/extime.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 7258282..b206cc2 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -597,7 +597,12 @@ class Time(object):
             timezone = calculateTimezone()
         else:
             timezone = None
-        self = klass.fromDatetime(_localize(calculateDtime(timezone)))
+        try:
+            self = klass.fromDatetime(_localize(calculateDtime(timezone)))
+        except OverflowError:
+            # A day which doesn't exist, or one in the year 0 or 10000 in UTC.
+            raise ValueError(
+                'ISO 8601 date is out of range: %r' % (iso8601string,))
         self.resolution = determineResolution()
         return self
 
-- 
2.43.0


From 693a09fb0e30a59119c727fa8acc9b7f77324670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:01 +0000
Subject: [PATCH 67/75] fix: decide containment of periods reaching past the
 calendar's end

---
 epsilon/extime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index b206cc2..1c5d9ba 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -1033,7 +1033,8 @@ class Time(object):
                 % (other,))
         if other._time < self._time:
             return False
-        if self._time + self.resolution < other._time + other.resolution:
+        # The ends may be past the end of the calendar.
+        if self.resolution < other._time - self._time + other.resolution:
             return False
         return True
 
-- 
2.43.0


From 4b86e5f1bc15600d7f5b90375bff4ddfa24b7c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:01 +0000
Subject: [PATCH 68/75] fix: don't round fractions of a second up in RFC 1123
 dates

---
 epsilon/extime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 1c5d9ba..61fd379 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -780,7 +780,9 @@ class Time(object):
         requires the timezone be represented as the string 'GMT',
         rather than an offset, e.g., '-0000'
         """
-        return formatdate(self.asPOSIXTimestamp(), False, True)
+        # Not with fractions, which may be rounded up.
+        return formatdate(
+            calendar.timegm(self._time.timetuple()), False, True)
 
 
     def asISO8601TimeAndDate(self, includeDelimiters=True, tzinfo=None,
-- 
2.43.0


From 1bf988d2bd8255b423b551ba85775b7dee42c7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:01 +0000
Subject: [PATCH 69/75] fix: encode JUICE lists of encoded strings and of boxes

---
 epsilon/juice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 563db51..e692b71 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -499,7 +499,8 @@ class ListOf(Argument):
     def toStringProto(self, inObject, proto):
         L = []
         for inSingle in inObject:
-            outString = self.subarg.toStringProto(inSingle, proto)
+            outString = six.ensure_str(
+                self.subarg.toStringProto(inSingle, proto))
             assert self.delimiter not in outString
             L.append(outString)
         return self.delimiter.join(L)
-- 
2.43.0


From 4a22ef2b55e24f700846986fc0c8c638703fbfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:01 +0000
Subject: [PATCH 70/75] fix: refuse JUICE list items which make up a delimiter
 with an adjacent one

---
 epsilon/juice.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index e692b71..a4df507 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -501,9 +501,11 @@ class ListOf(Argument):
         for inSingle in inObject:
             outString = six.ensure_str(
                 self.subarg.toStringProto(inSingle, proto))
-            assert self.delimiter not in outString
             L.append(outString)
-        return self.delimiter.join(L)
+        joined = self.delimiter.join(L)
+        # It may also appear where two items meet.
+        assert not L or joined.split(self.delimiter) == L
+        return joined
 
 class Integer(Argument):
     fromString = int
-- 
2.43.0


From bcabeb57827ab99317d9e9e745f06c1b42f6c4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:08 +0000
Subject: [PATCH 71/75] fix: combine modes of several base classes, and name
 the mode attribute in a subclass

---
 epsilon/modal.py | 55 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/epsilon/modal.py b/epsilon/modal.py
index 65c7d10..91dc145 100644
--- a/epsilon/modal.py
+++ b/epsilon/modal.py
@@ -16,8 +16,13 @@ class ModalMethod(object):
 
     @ivar modeAttribute: The name of the attribute on instances which
     is bound to the instance's current mode.
+
+    @ivar own: Those of C{methods} which the modes of the class itself define,
+    rather than those of its base classes.
     """
 
+    own = {}
+
     def __init__(self, name, methods, modeAttribute):
         self.name = name
         self.methods = methods
@@ -89,22 +94,40 @@ def _definitions(modeType):
 
 
 
-def _inheritImplementations(methName, methDefs, bases, modeNames):
+def _inheritImplementations(modalType, modeAttribute):
     """
-    Add to the implementations of a method those of the modes of the base
-    classes, and for the given modes, those of L{mode} itself.
+    Combine the implementations of the methods of a modal class with those of
+    its base classes, in the order in which methods are resolved, and with
+    those of L{mode} itself for modes which don't define an entry or exit.
     """
-    for base in bases:
-        for cls in base.__mro__:
-            if methName in cls.__dict__:
-                inherited = cls.__dict__[methName]
-                if isinstance(inherited, ModalMethod):
-                    for (modeName, methDef) in six.iteritems(inherited.methods):
-                        methDefs.setdefault(modeName, methDef)
+    modeNames = set()
+    methNames = set()
+    for cls in modalType.__mro__:
+        for (k, v) in six.iteritems(cls.__dict__):
+            if isinstance(v, type) and issubclass(v, mode):
+                modeNames.add(k)
+            elif isinstance(v, ModalMethod):
+                methNames.add(k)
+
+    for methName in methNames:
+        definers = [cls.__dict__[methName] for cls in modalType.__mro__
+                    if methName in cls.__dict__]
+        if not isinstance(definers[0], ModalMethod):
+            # An ordinary method overrides it.
+            continue
+        own = getattr(modalType.__dict__.get(methName), 'own', {})
+        methods = {}
+        for definer in definers:
+            if not isinstance(definer, ModalMethod):
                 break
-    for modeName in modeNames:
+            for (modeName, methDef) in six.iteritems(definer.own):
+                methods.setdefault(modeName, methDef)
         if methName in ('__enter__', '__exit__'):
-            methDefs.setdefault(modeName, mode.__dict__[methName])
+            for modeName in modeNames:
+                methods.setdefault(modeName, mode.__dict__[methName])
+        modal = ModalMethod(methName, methods, modeAttribute)
+        modal.own = own
+        setattr(modalType, methName, modal)
 
 
 
@@ -127,12 +150,10 @@ class ModalType(type):
         # dict maps names of modes to implementations of that method
         # for that mode.
         implementations = {}
-        modeNames = []
 
         keepAttrs = {modeAttribute: initialMode}
         for (k, v) in six.iteritems(attrs):
             if isinstance(v, type) and issubclass(v, mode):
-                modeNames.append(k)
                 implementations.setdefault('__enter__', {})
                 implementations.setdefault('__exit__', {})
                 for (methName, methDef) in six.iteritems(_definitions(v)):
@@ -142,10 +163,12 @@ class ModalType(type):
             keepAttrs[k] = v
 
         for (methName, methDefs) in six.viewitems(implementations):
-            _inheritImplementations(methName, methDefs, bases, modeNames)
             keepAttrs[methName] = ModalMethod(methName, methDefs, modeAttribute)
+            keepAttrs[methName].own = methDefs
 
-        return super(ModalType, cls).__new__(cls, name, bases, keepAttrs)
+        modalType = super(ModalType, cls).__new__(cls, name, bases, keepAttrs)
+        _inheritImplementations(modalType, modeAttribute)
+        return modalType
 
 
 @six.add_metaclass(ModalType)
-- 
2.43.0


From 4a64321af5894fe864df6f4a912ea59326f583ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:08 +0000
Subject: [PATCH 72/75] fix: keep lines in order when data arrives while
 earlier data is delivered

---
 epsilon/liner.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/epsilon/liner.py b/epsilon/liner.py
index d1062ae..09ff527 100644
--- a/epsilon/liner.py
+++ b/epsilon/liner.py
@@ -10,7 +10,9 @@ class LineReceiver(Protocol):
     buffer = b''
     delimiter = b'\r\n'
     _deliveringRawData = False
+    _delivering = False
     _extra = b''
+    _arrived = b''
 
     def lineReceived(self, line):
         pass
@@ -40,11 +42,19 @@ class LineReceiver(Protocol):
         self.lineMode = False
 
     def dataReceived(self, data):
-        self._extra += data
-        while self._extra:
-            extra, self._extra = self._extra, b''
-            if not self.isDisconnecting():
-                self._dataReceived(extra)
+        self._arrived += data
+        if self._delivering:
+            # It arrived while what came before is still being delivered.
+            return
+        self._delivering = True
+        try:
+            while self._extra or self._arrived:
+                data = self._extra + self._arrived
+                self._extra = self._arrived = b''
+                if not self.isDisconnecting():
+                    self._dataReceived(data)
+        finally:
+            self._delivering = False
 
     def _dataReceived(self, data):
         buffer = self.buffer
-- 
2.43.0


From 6e7d31e6f8c2ea757c54bee0edcc5e1708288299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:33 +0000
Subject: [PATCH 73/75] fix: A box sent again through the default route doesn't
 keep another route's name

---
 epsilon/amprouter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index 0aa0c93..279c3e1 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -98,6 +98,9 @@ class Route(record('router receiver localRouteName remoteRouteName',
             if isinstance(box, AmpBox):
                 # AMP can only send bytes.
                 box[_ROUTE] = six.ensure_binary(self.remoteRouteName)
+        else:
+            # It may have been sent through another route before.
+            box.pop(_ROUTE, None)
         self.router._sender.sendBox(box)
 
 
-- 
2.43.0


From fa266210af7c8c67cf1cf5f738721ec5cc38c126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:33 +0000
Subject: [PATCH 74/75] fix: A juice box sent again isn't taken for the request
 or answer it was before

---
 epsilon/juice.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index a4df507..c5a41b4 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -407,6 +407,9 @@ class JuiceParserBase(DispatchMixin):
         if self._outstandingRequests is None:
             return fail(CONNECTION_LOST)
         box[COMMAND] = command
+        # It may have been another request, or the answer to one, before.
+        box.pop(ASK, None)
+        box.pop(ANSWER, None)
         tag = self._nextTag()
         if requiresAnswer:
             box[ASK] = tag
-- 
2.43.0


From 423fbbc5d3d6a3b7817844ba4b79f7cbe59cc52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:08 +0000
Subject: [PATCH 75/75] fix: whole days had the local mean time's offset in a
 timezone of pytz

---
 epsilon/extime.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 61fd379..b73a2a5 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -722,7 +722,12 @@ class Time(object):
             tzinfo = FixedOffset(0, 0)
 
         if not self.isTimezoneDependent():
-            return self._time.replace(tzinfo=tzinfo)
+            dtime = self._time.replace(tzinfo=tzinfo)
+            try:
+                return _localize(dtime)
+            except OverflowError:
+                # The first or the last day of the calendar.
+                return dtime
         else:
             return self._time.replace(tzinfo=FixedOffset(0, 0)).astimezone(tzinfo)
 
-- 
2.43.0

