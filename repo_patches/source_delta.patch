From 4a487b97c25a86d19a8a2245a8008f695c790472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 01/36] fix: LinkConeCard adds the numbers of past and future
 links

It combined the two cardinalities with a bitwise and.
---
 causetevent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index efe1772..21ff22f 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -416,10 +416,10 @@ class CausetEvent(object):
         cardinality).
         '''
         try:
-            return len(self._lprec) & len(self._lsucc)
+            return len(self._lprec) + len(self._lsucc)
         except AttributeError:
             self.link()
-            return len(self._lprec) & len(self._lsucc)
+            return len(self._lprec) + len(self._lsucc)
 
     def copy(self) -> 'CausetEvent':
         '''
-- 
2.43.0


From 904ec643fc34f4dda758cfce8b844234c522398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 02/36] fix: unlink, disjoin, add and discard accept events
 without link memory

---
 causetevent.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index 21ff22f..743bb5b 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -214,8 +214,9 @@ class CausetEvent(object):
         '''
         Force the CausetEvent instance to reset its link memory.
         '''
-        delattr(self, '_lprec')
-        delattr(self, '_lsucc')
+        if self.hasBeenLinked():
+            delattr(self, '_lprec')
+            delattr(self, '_lsucc')
 
     @classmethod
     def isLink(cls, a: 'CausetEvent', b: 'CausetEvent') -> bool:
-- 
2.43.0


From d98c3e1e6246156e9d609d00375fa5a858bcd85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 03/36] fix: removing an event restores the links across it

---
 causetevent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index 743bb5b..63c1f97 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -109,18 +109,18 @@ class CausetEvent(object):
         It returns True if the event was in the past or future, otherwise False.
         '''
         if other in self._prec:
+            self._prec.discard(other)
             if self.hasBeenLinked() and (other in self._lprec):
                 self._lprec |= {
                     e for e in other._prec if CausetEvent.isLink(e, self)}
                 self._lprec.remove(other)
-            self._prec.discard(other)
             return True
         elif other in self._succ:
+            self._succ.discard(other)
             if self.hasBeenLinked() and (other in self._lsucc):
                 self._lsucc |= {
                     e for e in other._succ if CausetEvent.isLink(self, e)}
                 self._lsucc.remove(other)
-            self._succ.discard(other)
             return True
         else:
             return False
-- 
2.43.0


From f1e476475b4dbc848663b036ad2cd81f4fb63d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 04/36] fix: merging sets of linked events resets their link
 memory

---
 causet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causet.py b/causet.py
index 5b5785f..0f03f0f 100644
--- a/causet.py
+++ b/causet.py
@@ -230,6 +230,8 @@ class Causet(object):
         assigned to the the past of every event in `futureSet` and vice versa.
         '''
         if not disjoint:  # add pastSet as past of futureSet
+            for e in itertools.chain(pastSet, futureSet):
+                e.unlink()  # links between the sets depend on all events
             for p in pastSet:
                 for f in futureSet:
                     p._addToFuture(f)
-- 
2.43.0


From ee93ec72e6b08b2bdfb3df6b7ee55edcddf4784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 05/36] fix: reflected difference of a set and a causet removes
 the causet

---
 causet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index 0f03f0f..b407780 100644
--- a/causet.py
+++ b/causet.py
@@ -394,7 +394,7 @@ class Causet(object):
         return self._events - set(other)
 
     def __rsub__(self, other: Iterable[CausetEvent]) -> Set[CausetEvent]:
-        return self._events - set(other)
+        return set(other) - self._events
 
     def __or__(self, other: Iterable[CausetEvent]) -> Set[CausetEvent]:
         return self._events | set(other)
-- 
2.43.0


From a3e22c88d48ca7f308cc087ae955eb16eaa5353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 06/36] fix: isPath rejects linked events that are not a chain

---
 causet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causet.py b/causet.py
index b407780..c7047c8 100644
--- a/causet.py
+++ b/causet.py
@@ -458,6 +458,8 @@ class Causet(object):
             events = set(events)
             if len(events) <= 1:
                 return len(events) == 1
+            if not self.isChain(events):
+                return False
             extremal: int = 0
             for e in events:
                 e_linkcount: int = len(e.LinkCone & events)
-- 
2.43.0


From 1e0a2ecd33b6ad53ef7cc16a75148326a3e2cb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 07/36] fix: PastOf, FutureOf and ConeOf with intersect start
 from the first event

---
 causet.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/causet.py b/causet.py
index c7047c8..1199f3e 100644
--- a/causet.py
+++ b/causet.py
@@ -555,12 +555,12 @@ class Causet(object):
         Returns the set of events that are in the past of `eventSet`.
         '''
         newEventSet: Set[CausetEvent] = set()
-        if includePresent and intersect:
-            for e in eventSet:
-                newEventSet &= e.PresentOrPast
-        elif intersect:
-            for e in eventSet:
-                newEventSet &= e.Past
+        if intersect:
+            sets: List[Set[CausetEvent]] = [
+                e.PresentOrPast if includePresent else e.Past
+                for e in eventSet]
+            if sets:
+                newEventSet = set.intersection(*sets)
         else:
             for e in eventSet:
                 newEventSet |= e.Past
@@ -575,12 +575,12 @@ class Causet(object):
         Returns the set of events that are in the future of `eventSet`.
         '''
         newEventSet: Set[CausetEvent] = set()
-        if includePresent and intersect:
-            for e in eventSet:
-                newEventSet &= e.PresentOrFuture
-        elif intersect:
-            for e in eventSet:
-                newEventSet &= e.Future
+        if intersect:
+            sets: List[Set[CausetEvent]] = [
+                e.PresentOrFuture if includePresent else e.Future
+                for e in eventSet]
+            if sets:
+                newEventSet = set.intersection(*sets)
         else:
             for e in eventSet:
                 newEventSet |= e.Future
@@ -595,12 +595,12 @@ class Causet(object):
         Returns the set of events that are in the cone of `eventSet`.
         '''
         newEventSet: Set[CausetEvent] = set()
-        if includePresent and intersect:
-            for e in eventSet:
-                newEventSet &= e.Cone
-        elif intersect:
-            for e in eventSet:
-                newEventSet &= (e.Past | e.Future)
+        if intersect:
+            sets: List[Set[CausetEvent]] = [
+                e.Cone if includePresent else e.Past | e.Future
+                for e in eventSet]
+            if sets:
+                newEventSet = set.intersection(*sets)
         else:
             for e in eventSet:
                 newEventSet |= e.Past | e.Future
-- 
2.43.0


From acba4ca2221be374a7f81cbaf5b243cfd771c138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 08/36] fix: FromPastMatrix completes past and future of links
 and rejects every loop

---
 causet.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/causet.py b/causet.py
index 1199f3e..90e314c 100644
--- a/causet.py
+++ b/causet.py
@@ -181,20 +181,17 @@ class Causet(object):
                              'to a square matrix.')
         events: np.ndarray = np.array([CausetEvent(label=i)
                                        for i in range(1, colcount + 1)])
-        e: CausetEvent
-        for i in range(rowcount):
-            e = events[i]
-            past: Set[CausetEvent] = set(events[np.where(C[i, :])[0]])
-            future: Set[CausetEvent] = set(events[np.where(C[:, i])[0]])
-            if (past & future) or (e in past) or (e in future):
-                raise ValueError('The causet is not anti-symmetric.')
-            e._prec = past
-            e._succ = future
         # complete pasts and futures (if the input contains links only)
+        R: np.ndarray = np.zeros((colcount, colcount), dtype=bool)
+        R[:rowcount, :] = C
+        for k in range(colcount):
+            R |= np.outer(R[:, k], R[k, :])
+        if np.any(np.diag(R)):
+            raise ValueError('The causet is not anti-symmetric.')
         for i in range(colcount):
-            e = events[i]
-            e._prec = Causet.PastOf(e._prec, includePresent=True)
-            e._succ = Causet.FutureOf(e._succ, includePresent=True)
+            e: CausetEvent = events[i]
+            e._prec = set(events[np.where(R[i, :])[0]])
+            e._succ = set(events[np.where(R[:, i])[0]])
         return Causet(set(events))
 
     @staticmethod
-- 
2.43.0


From ffa925dc30bed26bb2797a262755c5f0815aa6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:58 +0000
Subject: [PATCH 09/36] fix: FromTextFile reads the matrix of a single event

---
 causet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index 90e314c..2d308c1 100644
--- a/causet.py
+++ b/causet.py
@@ -209,7 +209,7 @@ class Causet(object):
         the `genfromtxt` function of `numpy`. The resulting logical matrix is 
         parsed with `FromPastMatrix` or `FromFutureMatrix`.
         '''
-        C: np.ndarray = np.genfromtxt(filename, dtype=int,
+        C: np.ndarray = np.genfromtxt(filename, dtype=int, ndmin=2,
                                       delimiter=delimiter, **kwargs)
         C = C.astype(bool)
         if isPastMatrix:
-- 
2.43.0


From 0c4ab6d6733cd2da5e192bca81d90977b0a4f526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:49 +0000
Subject: [PATCH 10/36] fix: DistanceMatrix marks events without connection
 also when no layer is found

---
 causet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index 2d308c1..e3ba389 100644
--- a/causet.py
+++ b/causet.py
@@ -1018,7 +1018,7 @@ class Causet(object):
                              'supported.\n' +
                              'Use \'ziczac\' or \'intersection\'.')
         l: int = len(antichain)
-        D: np.ndarray = np.zeros((l, l), dtype=int)
+        D: np.ndarray = np.eye(l, dtype=int) - 1
         ac_set: Set[CausetEvent] = set(antichain)
         slice_set: Set[CausetEvent] = ac_set
         thickerslice_set = self.Layers(slice_set, -1, 1)
-- 
2.43.0


From ce806a365fdafb85249cb68c39fec055aa336533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 11/36] fix: Anti-de Sitter causality orders events by time

---
 spacetimes.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/spacetimes.py b/spacetimes.py
index f41880b..bbe91de 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -646,11 +646,14 @@ class AntideSitterSpacetime(_dSSpacetime):
             x1_x: float = amp_x * math.cos(x[0] / self._alpha)
             x0_y: float = amp_y * math.sin(y[0] / self._alpha)
             x1_y: float = amp_y * math.cos(y[0] / self._alpha)
-            x0_delta: float = x0_y - x0_x
-            isCausal: bool = x0_delta**2 + (x1_y - x1_x)**2 >= \
+            t_delta: float = y[0] - x[0]
+            # The embedding coordinates repeat after a time of 2*pi*alpha. 
+            # Light reaches every point within half of it.
+            isCausal: bool = abs(t_delta) >= math.pi * self._alpha or \
+                (x0_y - x0_x)**2 + (x1_y - x1_x)**2 >= \
                 sum(np.square(y[1:] - x[1:])) - causality_eps
-            return ((x0_delta >= 0.0) and isCausal,
-                    (x0_delta < 0.0) and isCausal)
+            return ((t_delta >= 0.0) and isCausal,
+                    (t_delta < 0.0) and isCausal)
         return isCausal_AdS
 
 
-- 
2.43.0


From 8d016fa1302f37ac43221d75247948c796bd4f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:24 +0000
Subject: [PATCH 12/36] fix: Sprinkle into bicones around their centre

---
 sprinkledcauset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 28dfc3c..99cec2a 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -82,10 +82,10 @@ class SprinkledCauset(EmbeddedCauset):
                 high = shape.Center + shape.Parameter('edge') / 2
             for i in range(count):
                 coords[i, :] = rng.uniform(low, high)
-        elif shape.Name in ('ball', 'cylinder', 'diamond'):
+        elif shape.Name in ('ball', 'cylinder', 'bicone'):
             # Create circle based sprinkle:
             isCylindrical: bool = 'cylinder' in shape.Name
-            isDiamond: bool = 'diamond' in shape.Name
+            isDiamond: bool = 'bicone' in shape.Name
             d: int = self.Dim
             b_r: float = shape.Parameter('radius')
             if (d == 2) and isDiamond:
@@ -95,6 +95,7 @@ class SprinkledCauset(EmbeddedCauset):
                 coords[:, 0] = uv[:, 0] + uv[:, 1]
                 coords[:, 1] = uv[:, 0] - uv[:, 1]
                 coords *= b_r / 2
+                coords += shape.Center
             else:
                 b_dstart: int = 0 if shape.Name == 'ball' else 1
                 b_d: int = d - b_dstart
@@ -119,7 +120,8 @@ class SprinkledCauset(EmbeddedCauset):
                         h_squeeze: float = rng.uniform()**(1.0 / d)
                         h_sign: float = np.sign(
                             rng.uniform(low=-1.0, high=1.0))
-                        coords[i, 0] = h_sign * (1 - h_squeeze) * b_r
+                        coords[i, 0] = shape.Center[0] + \
+                            h_sign * (1 - h_squeeze) * b_r
                         # adjust scaling:
                         r_scaling *= h_squeeze
                     coords[i, b_dstart:] = shape.Center[b_dstart:] + \
-- 
2.43.0


From a21c15a4128a56e541d7a8c1af975c273927a8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 13/36] fix: Sprinkle uniformly into hollow bicones

---
 sprinkledcauset.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 99cec2a..44594cc 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -88,7 +88,7 @@ class SprinkledCauset(EmbeddedCauset):
             isDiamond: bool = 'bicone' in shape.Name
             d: int = self.Dim
             b_r: float = shape.Parameter('radius')
-            if (d == 2) and isDiamond:
+            if (d == 2) and isDiamond and shape.Parameter('hollow') == 0.0:
                 # pick `count` random coordinate tuples uniformly:
                 uv: np.ndarray = rng.uniform(low=-1.0, high=1.0,
                                              size=(count, 2))
@@ -108,20 +108,22 @@ class SprinkledCauset(EmbeddedCauset):
                     coords[:, 0] = rng.uniform(time_low, time_high,
                                                size=(count,))
                 # pick `count` random coordinate tuples uniformly:
-                r_low: float = shape.Parameter('hollow')**b_d
+                # the hollow interior of a bicone is a smaller bicone:
+                r_d: int = d if isDiamond else b_d
+                r_low: float = shape.Parameter('hollow')**r_d
                 for i in range(count):
                     # get coordinates on sphere using normal distribution:
                     coord: np.ndarray = rng.standard_normal(size=(b_d,))
                     r: float = np.sqrt(sum(np.square(coord)))
                     r_scaling: float
-                    r_scaling = rng.uniform(low=r_low)**(1.0 / b_d)
+                    r_scaling = rng.uniform(low=r_low)**(1.0 / r_d)
                     if isDiamond:
                         # set time coordinate:
-                        h_squeeze: float = rng.uniform()**(1.0 / d)
+                        h_squeeze: float = rng.uniform()**(1.0 / b_d)
                         h_sign: float = np.sign(
                             rng.uniform(low=-1.0, high=1.0))
                         coords[i, 0] = shape.Center[0] + \
-                            h_sign * (1 - h_squeeze) * b_r
+                            h_sign * (1 - h_squeeze) * r_scaling * b_r
                         # adjust scaling:
                         r_scaling *= h_squeeze
                     coords[i, b_dstart:] = shape.Center[b_dstart:] + \
-- 
2.43.0


From ac968b003276c0f2aa5af19b6b3f81ec82f60a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:27 +0000
Subject: [PATCH 14/36] fix: Sprinkle into one-dimensional cylinders and
 bicones

---
 sprinkledcauset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 44594cc..1d85a96 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -85,8 +85,9 @@ class SprinkledCauset(EmbeddedCauset):
         elif shape.Name in ('ball', 'cylinder', 'bicone'):
             # Create circle based sprinkle:
             isCylindrical: bool = 'cylinder' in shape.Name
-            isDiamond: bool = 'bicone' in shape.Name
             d: int = self.Dim
+            # (a bicone without space dimension is a ball)
+            isDiamond: bool = 'bicone' in shape.Name and d > 1
             b_r: float = shape.Parameter('radius')
             if (d == 2) and isDiamond and shape.Parameter('hollow') == 0.0:
                 # pick `count` random coordinate tuples uniformly:
@@ -97,7 +98,7 @@ class SprinkledCauset(EmbeddedCauset):
                 coords *= b_r / 2
                 coords += shape.Center
             else:
-                b_dstart: int = 0 if shape.Name == 'ball' else 1
+                b_dstart: int = 1 if isCylindrical or isDiamond else 0
                 b_d: int = d - b_dstart
                 if isCylindrical:
                     # set time coordinate:
@@ -107,6 +108,8 @@ class SprinkledCauset(EmbeddedCauset):
                         shape.Parameter('duration') / 2
                     coords[:, 0] = rng.uniform(time_low, time_high,
                                                size=(count,))
+                    if b_d == 0:
+                        return coords
                 # pick `count` random coordinate tuples uniformly:
                 # the hollow interior of a bicone is a smaller bicone:
                 r_d: int = d if isDiamond else b_d
-- 
2.43.0


From 6df5df9d93245f98203eec05754781ba4bbc93f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:30 +0000
Subject: [PATCH 15/36] fix: LengthScale is the inverse root of the density

---
 embeddedcauset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index f8a7ca8..6477a06 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -184,7 +184,7 @@ class EmbeddedCauset(Causet):
         Returns the fundamental length scale as inverse d-root of 
         `self.Density` if `card > 0`, else 0.0. 
         '''
-        return 0.0 if self.Card == 0 else self.Density**(1.0 / self.Shape.Dim)
+        return 0.0 if self.Card == 0 else self.Density**(-1.0 / self.Shape.Dim)
 
     def create(self, coordinates: Union[List[List[float]],
                                         List[np.ndarray],
-- 
2.43.0


From f30a617890ed8eba29f333bd56761c38e015fc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 16/36] fix: LengthScale and discard of a sprinkle without
 events

---
 sprinkledcauset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 1d85a96..0c86184 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -62,7 +62,8 @@ class SprinkledCauset(EmbeddedCauset):
 
     @property
     def LengthScale(self) -> float:  # overwrites superclass
-        return (self.Shape.Volume / self._intensity)**(1.0 / self.Dim)
+        return 0.0 if self._intensity == 0.0 else \
+            (self.Shape.Volume / self._intensity)**(1.0 / self.Dim)
 
     def _sprinkle_coords(self, count: int, shape: CoordinateShape, rng) -> \
             np.ndarray:
@@ -184,4 +185,5 @@ class SprinkledCauset(EmbeddedCauset):
     def discard(self, eventSet: Iterable, unlink: bool = False) -> None:
         card_old: float = float(self.Card)
         super().discard(eventSet, unlink)
-        self._intensity *= (float(self.Card) / card_old)
+        if card_old > 0.0:
+            self._intensity *= (float(self.Card) / card_old)
-- 
2.43.0


From 0bd30887ab234f11e2954da6c7bee23b56c9792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:15 +0000
Subject: [PATCH 17/36] fix: Representation of coordinate shapes

---
 shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shapes.py b/shapes.py
index d118fb3..4eef303 100644
--- a/shapes.py
+++ b/shapes.py
@@ -143,7 +143,7 @@ class CoordinateShape(object):
             return f'{self._dim}-{self._name}'
 
     def __repr__(self):
-        return f'{self._class__._name__}(' + \
+        return f'{self.__class__.__name__}(' + \
             f'{self._dim}, {self._name}, center={self._center}, ' + \
             f'**{self._params})'
 
-- 
2.43.0


From d5d2c1caa7a6b16290b2fdfb7cd59fb024a6ce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 18/36] fix: Representation of flat spacetimes without periods

---
 spacetimes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spacetimes.py b/spacetimes.py
index bbe91de..0b1f831 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -278,7 +278,8 @@ class FlatSpacetime(Spacetime):
             self._params['period'] = _periods
 
     def __repr__(self):
-        _period: Tuple[float, ...] = self.Parameter('period')
+        _period: Union[float, Tuple[float, ...]] = \
+            self._params.get('period', 0.0)
         return f'{self.__class__.__name__}({self._dim}, period={_period})'
 
     def DefaultShape(self) -> CoordinateShape:
-- 
2.43.0


From b8bb96b20e7f0d7022e769a3991f3896131b84d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:19 +0000
Subject: [PATCH 19/36] fix: Check the dimension of coordinates given as list

---
 embeddedcauset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index 6477a06..4818da1 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -115,6 +115,8 @@ class EmbeddedCauset(Causet):
                     ((coordinates.ndim != 2) or
                      (coordinates.shape[1] != defaultShape.Dim)):
                 self.__raiseDimValueError__('coordinates')
+            elif any(len(c) != defaultShape.Dim for c in coordinates):
+                self.__raiseDimValueError__('coordinates')
             self.create(coordinates)
 
     @staticmethod
-- 
2.43.0


From c2dbf614157f2624123b683b6a42d13545077f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:37 +0000
Subject: [PATCH 20/36] fix: Restrict Newton's method to the documented
 interval

---
 calculations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calculations.py b/calculations.py
index 33ee0eb..1400844 100644
--- a/calculations.py
+++ b/calculations.py
@@ -92,9 +92,9 @@ def NewtonsMethod(f: Callable[[Any], Any], fprime: Callable[[Any], Any],
         if yprime_n == 0.0:
             break
         x_next: float = x_n - (f(x_n) - y) / yprime_n
-        if x_next < xmin:
+        if x_next < xmin + precission:
             x_next = xmin + precission
-        elif x_next > xmax:
+        elif x_next > xmax - precission:
             x_next = xmax - precission
         if abs(x_n - x_next) < precission:
             return x_next
-- 
2.43.0


From a65a09314bcdfc4fcf4af176001937a95da73faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:53 +0000
Subject: [PATCH 21/36] fix: cylinder and cone surfaces along another axis keep
 their centre

---
 shapes.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/shapes.py b/shapes.py
index 4eef303..703836a 100644
--- a/shapes.py
+++ b/shapes.py
@@ -555,15 +555,15 @@ def CylinderSurface(center: np.ndarray, radius: float, height: float,
         radii = radius * np.array([hollow, 1.0, 1.0, hollow, hollow])
         relZ = np.array([-sampling, -sampling, sampling, sampling, -sampling])
     XYZ: Tuple[np.ndarray, np.ndarray, np.ndarray] = \
-        (np.outer(radii, np.cos(phi)) + center[0],
-         np.outer(radii, np.sin(phi)) + center[1],
-         (height / 2) * relZ + center[2])
+        (np.outer(radii, np.cos(phi)),
+         np.outer(radii, np.sin(phi)),
+         (height / 2) * relZ)
     # rotate:
     if zaxis == 0:
         XYZ = (XYZ[2], XYZ[0], XYZ[1])
     elif zaxis == 1:
         XYZ = (XYZ[1], XYZ[2], XYZ[0])
-    return [XYZ]
+    return [(XYZ[0] + center[0], XYZ[1] + center[1], XYZ[2] + center[2])]
 
 
 def OpenConeSurface(tip: np.ndarray, radius: float, height: float,
@@ -580,13 +580,12 @@ def OpenConeSurface(tip: np.ndarray, radius: float, height: float,
     phi: np.ndarray = np.linspace(0.0, 2.0 * np.pi, samplingsize)
     radii: np.ndarray = radius * np.array([0.0, 1.0])
     XYZ: Tuple[np.ndarray, np.ndarray, np.ndarray] = \
-        (np.outer(radii, np.cos(phi)) + tip[0],
-         np.outer(radii, np.sin(phi)) + tip[1],
-         np.array([np.zeros(samplingsize), np.ones(samplingsize)]) * height
-         + tip[2])
+        (np.outer(radii, np.cos(phi)),
+         np.outer(radii, np.sin(phi)),
+         np.array([np.zeros(samplingsize), np.ones(samplingsize)]) * height)
     # rotate:
     if zaxis == 0:
         XYZ = (XYZ[2], XYZ[0], XYZ[1])
     elif zaxis == 1:
         XYZ = (XYZ[1], XYZ[2], XYZ[0])
-    return [XYZ]
+    return [(XYZ[0] + tip[0], XYZ[1] + tip[1], XYZ[2] + tip[2])]
-- 
2.43.0


From 58f164da6f4ced97177fd151acd6ccfcebf1dc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:53 +0000
Subject: [PATCH 22/36] fix: plot of a cylinder with time along the first axis
 is centred

---
 shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shapes.py b/shapes.py
index 703836a..94d90d0 100644
--- a/shapes.py
+++ b/shapes.py
@@ -348,8 +348,8 @@ class CoordinateShape(object):
                         **plotoptions)
             elif self.Name == 'cylinder':
                 cyl: np.ndarray = CylinderCutEdge(
-                    self.Center[dims], self._params['radius'],
-                    self._params['duration'], hollow)
+                    self.Center[dims[::-1] if timeaxis == 0 else dims],
+                    self._params['radius'], self._params['duration'], hollow)
                 if timeaxis == 0:
                     cyl = cyl[:, [1, 0]]
                 p = patches.Polygon(cyl, **plotoptions)
-- 
2.43.0


From 40de216040dc32e28ea2611069e88316dc5083a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:29 +0000
Subject: [PATCH 23/36] fix: plotting a hollow bicone leaves its radius alone

---
 shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shapes.py b/shapes.py
index 94d90d0..7d54e09 100644
--- a/shapes.py
+++ b/shapes.py
@@ -315,7 +315,7 @@ class CoordinateShape(object):
                 S = OpenConeSurface(tip, r, r, timeaxis) + \
                     OpenConeSurface(top, r, -r, timeaxis)
                 if hollow > 0.0:
-                    r *= hollow
+                    r = hollow * r
                     tip[timeaxis] = conecenter[timeaxis] - r
                     top[timeaxis] = conecenter[timeaxis] + r
                     S = OpenConeSurface(tip, r, r, timeaxis) + \
-- 
2.43.0


From 264da9f1171609dfdfea777ff1b9a5ef649614d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:00 +0000
Subject: [PATCH 24/36] fix: plotting cones without time fading failed

---
 causetplotting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causetplotting.py b/causetplotting.py
index ba0e559..fc796dd 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -404,7 +404,8 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
             _xy_z, plotting['pastcones'], timesign=-1, axes=ax,
             dynamicAlpha=dynamic_parameter(plotting['conetimefade'], dim,
                                            abs(plotting['conetimedepth']),
-                                           pcn_alpha_max))
+                                           pcn_alpha_max)
+            if plotting['conetimefade'] != '' else None)
     if isPlottingFuturecones:
         fcn_alpha_max: float
         if plotting['conetimefade'] != '':
@@ -416,7 +417,8 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
             _xy_z, plotting['futurecones'], timesign=1, axes=ax,
             dynamicAlpha=dynamic_parameter(plotting['conetimefade'], dim,
                                            abs(plotting['conetimedepth']),
-                                           fcn_alpha_max))
+                                           fcn_alpha_max)
+            if plotting['conetimefade'] != '' else None)
     # ====================
     plotting_links: Dict[str, Any] = {}
     if 'links' in plotting:
-- 
2.43.0


From 3028d9b0fbf74fdf3b2b0b3b2ea53294039748e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:03 +0000
Subject: [PATCH 25/36] fix: dynamic plots without links failed

---
 causetplotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causetplotting.py b/causetplotting.py
index fc796dd..12dfd6c 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -435,7 +435,7 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
             plotting_labels = plotting['labels']
         dyn_links = dynamic_parameter(plotting['timefade'],
                                       dim, t_depth,
-                                      plotting_links['linewidth'])
+                                      plotting_links.get('linewidth', 2.0))
         dyn_events = dynamic_parameter(plotting['timefade'],
                                        dim, t_depth,
                                        plotting_events.get('alpha', 1.0))
-- 
2.43.0


From 75943447fe70d422081cab123e6ad04443863bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:04 +0000
Subject: [PATCH 26/36] fix: plot failed with cones and a list of a single time

---
 causetplotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causetplotting.py b/causetplotting.py
index 12dfd6c..fa7faca 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -696,10 +696,10 @@ def plot(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
     '''
     time: np.ndarray = np.zeros(2)
     if 'time' in kwargs:
-        if np.shape(kwargs['time']) == (2,):
-            time = kwargs['time']
-        else:
+        if np.shape(kwargs['time']) == ():
             time = np.array([kwargs['time'], kwargs['time']])
+        else:
+            time = kwargs['time']
     return Plotter(E, plotAxes, spacetime, **kwargs)(time)
 
 
-- 
2.43.0


From afa76732cc0e6d40c837742a170a3943d6acc381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:20 +0000
Subject: [PATCH 27/36] fix: axis limits by the shape of an embedded causet
 failed

---
 causetplotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causetplotting.py b/causetplotting.py
index fa7faca..a05ddc4 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -350,6 +350,8 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
     '''
     # ====================
     # get defaults and user-specified parameters:
+    if isinstance(E, EmbeddedCauset) and (kwargs.get('axislim') == 'shape'):
+        kwargs.setdefault('shape', E.Shape)
     plotting: Dict[str, Any] = plot_parameters(**kwargs)
     _h = {}  # holds Dict of artists
     # ====================
@@ -358,7 +360,6 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
     if isinstance(E, EmbeddedCauset):
         events = list(E)
         spacetime = E.Spacetime
-        kwargs.update({'shape': E.Shape})
     elif isinstance(E, CausetEvent):
         events = [E]
     else:
-- 
2.43.0


From 99faeb6708fa587f9bc49487e7ebb64d0f35d3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:32 +0000
Subject: [PATCH 28/36] fix: events without coordinates counted as embedded

---
 causetevent.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index 63c1f97..62452e5 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -58,8 +58,10 @@ class CausetEvent(object):
         self._succ = set()
         for e in kwargs.get('future', []):
             self._succ.update(e.PresentOrFuture)
-        self._coordinates = list(kwargs.get('coordinates', []))
-        self._position = list(kwargs.get('position', []))
+        if 'coordinates' in kwargs:
+            self._coordinates = list(kwargs['coordinates'])
+        if 'position' in kwargs:
+            self._position = list(kwargs['position'])
         # Add this instance to its causal relatives:
         for e in self._prec:
             e._addToFuture(self)
-- 
2.43.0


From 18677d84307b5ad8d11decf31678f23c1d83f20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:34 +0000
Subject: [PATCH 29/36] fix: lime of the color scheme of Imperial College was
 no color

---
 colorschemes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/colorschemes.py b/colorschemes.py
index abc0813..72e2ec1 100644
--- a/colorschemes.py
+++ b/colorschemes.py
@@ -66,7 +66,7 @@ ColorSchemes: Dict[str, Dict[str, str]] = {
                               'cyan':        '#009CBC',
                               'green':       '#02893B',
                               'kermitgreen': '#66A40A',
-                              'lime':        '#BBCEOO',
+                              'lime':        '#BBCE00',
                               'yellow':      '#FFDD00',
                               'tangerine':   '#EC7300',
                               'orange':      '#D24000',
-- 
2.43.0


From b973a0c2306ffdddc2710201e9fc90599fa3177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:04 +0000
Subject: [PATCH 30/36] fix: intensity fading of past events in dynamic plots

---
 causetplotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causetplotting.py b/causetplotting.py
index a05ddc4..0c3724a 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -317,7 +317,7 @@ def dynamic_parameter(function: str, dim: int, timedepth: float,
     elif function == 'intensity':
         def intensity(value: float) -> float:
             return np.heaviside(_timefade_sgn * value, 1.0) * \
-                _alpha_max / np.power(np.maximum(value, 0.0) + 1.0, _dimpower)
+                _alpha_max / np.power(np.abs(value) + 1.0, _dimpower)
         return intensity
     else:
         return NotImplemented
-- 
2.43.0


From 78ef2b71e91631eacf356a9ddad98ddbe4544fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:20 +0000
Subject: [PATCH 31/36] fix: sampling size of cone slices in de Sitter
 spacetimes was ignored

---
 spacetimes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spacetimes.py b/spacetimes.py
index 0b1f831..9ed1d20 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -606,7 +606,8 @@ class deSitterSpacetime(_dSSpacetime):
             b = np.sqrt((r_s * np.sin(arg_s))**2 /
                         (1 - ((r_s * np.cos(arg_s) - x_c) / a)**2))
         XY: np.ndarray = shp.EllipseEdge(
-            np.array([x_c, 0.0]), np.array([a, b]))
+            np.array([x_c, 0.0]), np.array([a, b]),
+            samplingsize=samplingsize)
         # Rotation of the ellipse to the angle phi0:
         R: np.ndarray = np.array([[np.cos(phi0), -np.sin(phi0)],
                                   [np.sin(phi0), np.cos(phi0)]])
-- 
2.43.0


From 1c83fb026931602af54c3387f99e33076803fc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:17 +0000
Subject: [PATCH 32/36] fix: MaxEdgeHalf of a cylinder along time only is half
 of its duration

---
 shapes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shapes.py b/shapes.py
index 7d54e09..f63cde4 100644
--- a/shapes.py
+++ b/shapes.py
@@ -221,7 +221,9 @@ class CoordinateShape(object):
         elif self.Name in {'bicone', 'ball'}:
             return self._params['radius']
         elif self.Name == 'cylinder':
-            if dims.count(0) > 0:
+            if dims.count(0) == len(dims) > 0:
+                return self._params['duration'] / 2
+            elif dims.count(0) > 0:
                 return max([self._params['radius'],
                             self._params['duration'] / 2])
             else:
-- 
2.43.0


From be32122e0aff30129f7695c56292911ea7ea2438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:21 +0000
Subject: [PATCH 33/36] fix: Causet.link failed or lost links if a related
 event is not in the causal set

---
 causet.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/causet.py b/causet.py
index e3ba389..de90216 100644
--- a/causet.py
+++ b/causet.py
@@ -277,14 +277,8 @@ class Causet(object):
         '''
         Computes the causal links between all events.
         '''
-        # clear links:
         for e in self._events:
-            e._lsucc = set()
-        # compute links:
-        for b in self._events:
-            b._lprec = {a for a in b._prec if CausetEvent.isLink(a, b)}
-            for a in b._lprec:
-                a._lsucc.add(b)
+            e.link()
 
     def unlink(self) -> None:
         '''
-- 
2.43.0


From cee3174e1d01334a887d76aaca08d73e9fe35c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:56 +0000
Subject: [PATCH 34/36] fix: LinkCount of a causal set counted links to
 discarded events

---
 causet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index de90216..4f65cbf 100644
--- a/causet.py
+++ b/causet.py
@@ -294,7 +294,7 @@ class Causet(object):
         this instance if `eventSet is None`).
         '''
         if eventSet is None:
-            return sum([e.LinkPastCard for e in self._events])
+            return self.LinkCount(self._events)
         else:
             return sum([len(e.LinkPast & eventSet) for e in eventSet])
 
-- 
2.43.0


From 1dcefddbc98f2df927cca8c1151f1920984ca741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:58 +0000
Subject: [PATCH 35/36] fix: isChain, isPath and isAntichain considered
 discarded events

---
 causet.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/causet.py b/causet.py
index 4f65cbf..414cfb7 100644
--- a/causet.py
+++ b/causet.py
@@ -424,10 +424,7 @@ class Causet(object):
         '''
         c: int
         if events is None:
-            c = self.Card
-            for e in self._events:
-                if e.ConeCard != c:
-                    return False
+            return self.isChain(self._events)
         else:
             events = set(events)
             c = len(events)
@@ -441,10 +438,7 @@ class Causet(object):
         Tests if this instance or `CausetEvent` is a causal path.
         '''
         if events is None:
-            if self.Card == 0:
-                return False
-            else:
-                return self.isChain()
+            return self.isPath(self._events)
         else:
             events = set(events)
             if len(events) <= 1:
@@ -468,9 +462,7 @@ class Causet(object):
         Tests if this instance of `CausetEvent` is a causal anti-chain.
         '''
         if events is None:
-            for e in self._events:
-                if e.ConeCard != 1:
-                    return False
+            return self.isAntichain(self._events)
         else:
             events = set(events)
             for e in events:
-- 
2.43.0


From 611a324a05061d84774b07992228eff812626bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:22 +0000
Subject: [PATCH 36/36] fix: Plotter returns a new dictionary with every call

---
 causetplotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causetplotting.py b/causetplotting.py
index 0c3724a..39fa2a9 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -353,7 +353,6 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
     if isinstance(E, EmbeddedCauset) and (kwargs.get('axislim') == 'shape'):
         kwargs.setdefault('shape', E.Shape)
     plotting: Dict[str, Any] = plot_parameters(**kwargs)
-    _h = {}  # holds Dict of artists
     # ====================
     # get set of events:
     events: List[CausetEvent]
@@ -448,6 +447,7 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
         Core plot function that returns a dictionary of plot object 
         pointers.
         '''
+        _h = {}  # holds Dict of artists
         if isinstance(time, float):
             time = [time, time]  # list of floats required
         # ====================
-- 
2.43.0

