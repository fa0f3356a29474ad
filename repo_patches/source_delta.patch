From ad13c11ff52f9b56d8e1f8100453970673bab0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:16 +0000
Subject: [PATCH 01/53] fix: give every Hist its own copies of its axis objects

Derived histograms (project, drop, copy, ...) reused the axis objects of their
source and overwrote the indexes stored on them, so that later fills and tables
of the source addressed the wrong bins or profile columns.
---
 histbook/axis.py |  2 +-
 histbook/hist.py | 13 ++++++-------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index edb672f..9c9def7 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -1390,7 +1390,7 @@ class _nullaxis(FixedAxis):
         return histbook.expr.Name("???")
 
     def copy(self):
-        return self
+        return _nullaxis()
 
     def relabel(self, label):
         return self
diff --git a/histbook/hist.py b/histbook/hist.py
index 3178c92..a1484e2 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -155,13 +155,12 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
 
         newaxis = []
         for old in axis:
-            if isinstance(old, histbook.axis._nullaxis) or hasattr(old, "_parsed"):
-                newaxis.append(old)
-            else:
-                expr = histbook.expr.Expr.parse(old._expr, defs=defs)
-                new = old.copy()
-                new._parsed = expr
-                newaxis.append(new)
+            new = old.copy()    # never share axis objects among histograms: they hold per-histogram indexes
+            if hasattr(old, "_parsed"):
+                new._parsed = old._parsed
+            elif not isinstance(old, histbook.axis._nullaxis):
+                new._parsed = histbook.expr.Expr.parse(old._expr, defs=defs)
+            newaxis.append(new)
 
         self._goals = set()
         self._destination = [[]]
-- 
2.43.0


From e74828e8c6e3d91b2eb3a1814fe1675c81760989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:19 +0000
Subject: [PATCH 02/53] fix: sums and products of histograms share no state
 with their operands

The result of + and * shared the attachment dict, the fill plan, its scratch
space and, for categories found in only one operand, the bin contents.
---
 histbook/hist.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index a1484e2..7000d7c 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -519,14 +519,13 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                     if n in othercontent:
                         out[n] = add(selfcontent[n], othercontent[n])
                     else:
-                        out[n] = selfcontent[n]
+                        out[n] = Hist._copycontent(selfcontent[n])
                 for n in othercontent:
                     if n not in selfcontent:
-                        out[n] = othercontent[n]
+                        out[n] = Hist._copycontent(othercontent[n])
                 return out
 
-        out = self.__class__.__new__(self.__class__)
-        out.__dict__.update(self.__dict__)
+        out = self.cleared()
         out._content = add(self._content, other._content)
         return out
 
@@ -573,8 +572,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             else:
                 return content * value
 
-        out = self.__class__.__new__(self.__class__)
-        out.__dict__.update(self.__dict__)
+        out = self.cleared()
         out._content = recurse(self._content)
         return out
 
-- 
2.43.0


From 75272f026a8e2b0cabab3b61dbc24d4be1e0f526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:22 +0000
Subject: [PATCH 03/53] fix: a never-filled histogram can be scaled

---
 histbook/hist.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 7000d7c..b891fe3 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -567,7 +567,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             raise TypeError("Hist can only be multiplied by a scalar number.")
 
         def recurse(content):
-            if isinstance(content, dict):
+            if content is None:
+                return None
+            elif isinstance(content, dict):
                 return dict((n, recurse(x)) for n, x in content.items())
             else:
                 return content * value
@@ -584,7 +586,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             raise TypeError("Hist can only be multiplied by a scalar number.")
 
         def recurse(content):
-            if isinstance(content, dict):
+            if content is None:
+                pass
+            elif isinstance(content, dict):
                 for x in content.values():
                     recurse(x)
             else:
-- 
2.43.0


From 282bc90fb26d9bcf9ed9abd79e6805ca08e0b04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:57 +0000
Subject: [PATCH 04/53] fix: copy-on-fill copies and their originals never see
 each other's changes

Book.fill, += and *= wrote through the content a copy-on-fill histogram shares
with its original, and filling the original wrote into its copies.
---
 histbook/book.py |  3 +++
 histbook/hist.py | 14 ++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 830e0bc..29bb9ae 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -553,6 +553,9 @@ class Book(GenericBook, histbook.fill.Fillable):
             more field values
         """
 
+        for x in self.itervalues(recursive=True, onlyhist=True):
+            x._unshare()
+
         if histbook.calc.spark.isspark(arrays, more):
             # pyspark.DataFrame
             threads = [threading.Thread(target=histbook.calc.spark.fillspark(x, arrays)) for x in self.itervalues(recursive=True, onlyhist=True)]
diff --git a/histbook/hist.py b/histbook/hist.py
index b891fe3..f5d5323 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -85,10 +85,15 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
     def copyonfill(self):
         """Return a copy of the histogram whose content is copied if filled."""
         out = Hist(*(self._group + self._fixed + self._profile), weight=self._weightoriginal, filter=self._filteroriginal, defs=dict(self._defs), attachment=dict(self._attachment))
-        out._copyonfill = True
         out._content = self._content
+        out._copyonfill = self._copyonfill = True    # whichever is modified first must not affect the other
         return out
 
+    def _unshare(self):
+        if self._copyonfill:
+            self._content = Hist._copycontent(self._content)
+            self._copyonfill = False
+
     def clear(self):
         """Effectively reset all bins to zero."""
         self._content = None
@@ -346,9 +351,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         **more : Numpy arrays or numbers
             more field values
         """
-        if self._copyonfill:
-            self._content = Hist._copycontent(self._content)
-            self._copyonfill = False
+        self._unshare()
 
         if histbook.calc.spark.isspark(arrays, more):
             # pyspark.DataFrame
@@ -555,9 +558,11 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             self._content = Hist._copycontent(other._content)
 
         elif isinstance(self._content, numpy.ndarray):
+            self._unshare()
             self._content += other._content
 
         else:
+            self._unshare()
             add(self._content, other._content)
 
         return self
@@ -594,6 +599,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             else:
                 content *= value
 
+        self._unshare()
         recurse(self._content)
         return self
 
-- 
2.43.0


From e9a173ae786181a73d5e1b4b03ed520f978b2439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:32 +0000
Subject: [PATCH 05/53] fix: pickled (or deep-copied) books do not carry a
 stale fill plan

Filling an unpickled book that had been filled before wrote the computed values
into the scratch space of histograms that are not in it.
---
 histbook/book.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/histbook/book.py b/histbook/book.py
index 29bb9ae..2a35f49 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -89,6 +89,15 @@ class GenericBook(collections.MutableMapping):
     def _changed(self):
         pass
 
+    def __getstate__(self):
+        # no fill plan: it would point at this book's histograms, not at their unpickled copies
+        return {"_content": self._content, "_attachment": self._attachment}
+
+    def __setstate__(self, state):
+        self._content = state["_content"]
+        self._attachment = state["_attachment"]
+        self._changed()
+
     @classmethod
     def fromdicts(cls, content, attachment):
         """Construct a book from its ``content`` and ``attachment`` dicts."""
-- 
2.43.0


From 39497956fdc226f9a02eee0d37734f521c6c0bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:30 +0000
Subject: [PATCH 06/53] fix: a book refills correctly after any change, also in
 nested or systematics books

The fill plan survived edits made through a nested book's own handle (values
then reached the wrong histograms); a SystematicsBook could not be filled at all
because its change hook never initialised the plan, nor could an empty book.
---
 histbook/book.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/histbook/book.py b/histbook/book.py
index 2a35f49..50e3f13 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -534,9 +534,19 @@ class Book(GenericBook, histbook.fill.Fillable):
     def _changed(self):
         self._fields = None
 
+    @property
+    def fields(self):
+        """Names of fields that must be provided in the ``fill`` method."""
+        # nested books can be changed without notifying this one, so verify that the plan is for the current histograms
+        hists = self.values(recursive=True, onlyhist=True)
+        if self._fields is not None and (len(hists) != len(self._planned) or any(x is not y for x, y in zip(hists, self._planned))):
+            self._fields = None
+        self._planned = hists
+        return super(Book, self).fields
+
     @property
     def _goals(self):
-        return functools.reduce(set.union, (x._goals for x in self.itervalues(recursive=True, onlyhist=True)))
+        return functools.reduce(set.union, (x._goals for x in self.itervalues(recursive=True, onlyhist=True)), set())
 
     def _streamline(self, i, instructions):
         self._destination = []
@@ -649,6 +659,7 @@ class SystematicsBook(Book):
         return super(SystematicsBook, self).__str__(indent=indent, first=first)
 
     def _changed(self):
+        super(SystematicsBook, self)._changed()
         self.assertcompatible()
         if not all(x.has("systematic") for x in self.itervalues(recursive=True, onlyhist=True)):
             raise ValueError("all histograms in a SystematicsBook must have a 'systematic' attachment")
-- 
2.43.0


From 7ee94f231fa69e925786f70476e24ff98bfb4af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:17 +0000
Subject: [PATCH 07/53] fix: deleting by wildcard removes the matching entries
 only

It tried to remove every entry of the book, whatever the pattern.
---
 histbook/book.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/histbook/book.py b/histbook/book.py
index 50e3f13..519dabd 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -291,7 +291,8 @@ class GenericBook(collections.MutableMapping):
 
         if "*" in name or "?" in name or "[" in name:
             for n in self.allkeys():
-                self._del(n, "")
+                if fnmatch.fnmatchcase(n, name) and self._get(n) is not None:    # may be gone with the book it was in
+                    self._del(n, "")
         else:
             self._del(name, "")
 
-- 
2.43.0


From c502a12d5065ff2b844f016d556433beb88b6b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:20 +0000
Subject: [PATCH 08/53] fix: a rejected edit leaves the book as it was

An entry refused by a SystematicsBook stayed in it, and a multi-step edit that
failed half-way left the first half applied.
---
 histbook/book.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/histbook/book.py b/histbook/book.py
index 519dabd..73b7f60 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -264,6 +264,16 @@ class GenericBook(collections.MutableMapping):
                 else:
                     raise KeyError("could not find {0}".format(name if path == "" else path + "/" + name))
 
+    def _undoable(self, edit, *args):
+        # apply an edit; if it is rejected anywhere in this hierarchy of books, put everything back
+        saved = [(x, collections.OrderedDict(x._content)) for x in [self] + [y for y in self.itervalues(recursive=True) if isinstance(y, GenericBook)]]
+        try:
+            edit(*args)
+        except Exception:
+            for x, content in saved:
+                x._content = content
+            raise
+
     def __getitem__(self, name):
         if not isinstance(name, string):
             raise TypeError("keys of a {0} must be strings".format(self.__class__.__name__))
@@ -283,12 +293,15 @@ class GenericBook(collections.MutableMapping):
         if not isinstance(value, (histbook.hist.Hist, GenericBook)):
             raise TypeError("values of a {0} must be Hists or books".format(self.__class__.__name__))
 
-        self._set(name, value, "")
+        self._undoable(self._set, name, value, "")
 
     def __delitem__(self, name):
         if not isinstance(name, string):
             raise TypeError("keys of a {0} must be strings".format(self.__class__.__name__))
 
+        self._undoable(self._delmatching, name)
+
+    def _delmatching(self, name):
         if "*" in name or "?" in name or "[" in name:
             for n in self.allkeys():
                 if fnmatch.fnmatchcase(n, name) and self._get(n) is not None:    # may be gone with the book it was in
-- 
2.43.0


From 927eb1ae316a7ed09e9ee73d75c340d75bed5414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:23 +0000
Subject: [PATCH 09/53] fix: sums of books do not share histograms with their
 operands

---
 histbook/book.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 73b7f60..35499f4 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -468,10 +468,10 @@ class GenericBook(collections.MutableMapping):
             if n in other:
                 content[n] = x + other[n]
             else:
-                content[n] = x
+                content[n] = x.copy()
         for n, x in other.iteritems():
             if n not in self:
-                content[n] = x
+                content[n] = x.copy()
 
         attachment = dict(self._attachment)
         attachment.update(other._attachment)
@@ -483,7 +483,7 @@ class GenericBook(collections.MutableMapping):
         
         for n, x in other.iteritems():
             if n not in self:
-                self[n] = x
+                self[n] = x.copy()
             else:
                 self[n] += x
         return self
-- 
2.43.0


From fee2be83c2b804a3b0f76c3596d33e0f170b9e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:27 +0000
Subject: [PATCH 10/53] fix: JSON images share no metadata with the histograms
 they describe

---
 histbook/book.py | 4 ++--
 histbook/hist.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 35499f4..0ff987b 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -191,7 +191,7 @@ class GenericBook(collections.MutableMapping):
             return node
         out = {"type": self.__class__.__name__, "content": [merge(n, x.tojson()) for n, x in self._content.items()]}
         if len(self._attachment) != 0:
-            out["attachment"] = self._attachment
+            out["attachment"] = dict(self._attachment)
         return out
 
     @staticmethod
@@ -203,7 +203,7 @@ class GenericBook(collections.MutableMapping):
                 content[node["name"]] = histbook.hist.Hist.fromjson(node)
             else:
                 content[node["name"]] = GenericBook.fromjson(node)
-        return cls.fromdicts(content, obj.get("attachment", {}))
+        return cls.fromdicts(content, dict(obj.get("attachment", {})))
 
     def __len__(self):
         return len(self._content)
diff --git a/histbook/hist.py b/histbook/hist.py
index f5d5323..46af5a2 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -701,7 +701,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if self._filteroriginal is not None:
             out["filter"] = self._filteroriginal
         if self._defs is not None and len(self._defs) != 0:
-            out["defs"] = self._defs
+            out["defs"] = dict(self._defs)
         if self._content is not None:
             def recurse(node):
                 if isinstance(node, dict):
@@ -710,7 +710,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                     return node.tolist()
             out["content"] = recurse(self._content)
         if len(self._attachment) != 0:
-            out["attachment"] = self._attachment
+            out["attachment"] = dict(self._attachment)
         return out
 
     @staticmethod
@@ -724,7 +724,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             else:
                 return numpy.array(node, dtype=Hist.COUNTTYPE)
 
-        out = Hist(*[histbook.axis.Axis.fromjson(x) for x in obj["axis"]], weight=obj.get("weight", None), filter=obj.get("filter", None), defs=obj.get("defs", None), attachment=obj.get("attachment", None))
+        out = Hist(*[histbook.axis.Axis.fromjson(x) for x in obj["axis"]], weight=obj.get("weight", None), filter=obj.get("filter", None), defs=dict(obj.get("defs", {})), attachment=dict(obj.get("attachment", {})))
         out._content = recurse(obj.get("content", None))
         return out
 
-- 
2.43.0


From 9273271bb1f28963f9bbd84f7a383e358ebb49c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:31 +0000
Subject: [PATCH 11/53] fix: groupbin keys survive JSON text

They came back as strings, so later fills and merges duplicated the bins.
---
 histbook/hist.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 46af5a2..4ecb5e6 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -716,16 +716,20 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
     @staticmethod
     def fromjson(obj):
         assert obj["type"] == "Hist"
-        def recurse(node):
+        def key(j, n):
+            # JSON text has only string keys; groupbin keys are numbers (or "NaN")
+            return float(n) if isinstance(out._group[j], histbook.axis.groupbin) and n != "NaN" else n
+
+        def recurse(j, node):
             if node is None:
                 return None
             elif isinstance(node, dict):
-                return dict((n, recurse(x)) for n, x in node.items())
+                return dict((key(j, n), recurse(j + 1, x)) for n, x in node.items())
             else:
                 return numpy.array(node, dtype=Hist.COUNTTYPE)
 
         out = Hist(*[histbook.axis.Axis.fromjson(x) for x in obj["axis"]], weight=obj.get("weight", None), filter=obj.get("filter", None), defs=dict(obj.get("defs", {})), attachment=dict(obj.get("attachment", {})))
-        out._content = recurse(obj.get("content", None))
+        out._content = recurse(0, obj.get("content", None))
         return out
 
     def __getstate__(self):
-- 
2.43.0


From 46410f3ff56b0f8ed834cab40ed604b1de4b62d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:58 +0000
Subject: [PATCH 12/53] fix: infinite and huge values go to the overflow, not
 the underflow bin

---
 histbook/calc/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 12fb2eb..c9c8495 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -223,6 +223,10 @@ def histbook_bin(underflow, overflow, nanflow, closedlow):
             numpy.ceil(indexes, indexes)
             numpy.add(indexes, shift - 1, indexes)
 
+        # keep infinities and very large values within the range of INDEXTYPE
+        numpy.maximum(indexes, -1, indexes)
+        numpy.minimum(indexes, numbins + shift, indexes)
+
         out = numpy.ma.array(indexes, dtype=INDEXTYPE)
         with numpy.errstate(invalid="ignore"):
             if underflow:
@@ -262,7 +266,8 @@ def histbook_intbin(underflow, overflow):
         shift = 0
 
     def intbin(values, min, max):
-        indexes = numpy.ma.array((values + (shift - min)), dtype=INDEXTYPE)
+        # clip first, to keep infinities and very large values within the range of INDEXTYPE
+        indexes = numpy.ma.array(numpy.add(numpy.clip(values, min - 1, max + 1), shift - min, dtype=numpy.float64), dtype=INDEXTYPE)
 
         if underflow:
             numpy.maximum(indexes, 0, indexes)
-- 
2.43.0


From 845825c04dbd7185ebf999aadf410fa36afca4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:02 +0000
Subject: [PATCH 13/53] fix: profiles can be filled in histograms with values
 outside of all bins

With a disabled under-, over- or nanflow, profile values were not reduced to the
rows that are in a bin, and weights were reduced once per profile.
---
 histbook/hist.py | 46 +++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 4ecb5e6..3561bd4 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -423,33 +423,33 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 weight2[selection] = 0.0
 
         def fillblock(content, indexes, axissumx, axissumx2, weight, weight2):
-            for sumx, sumx2, axis in zip(axissumx, axissumx2, self._profile):
-                if indexes is None:
-                    indexes = numpy.ma.zeros(len(sumx), dtype=histbook.calc.INDEXTYPE)
-                if weight2 is not None:
-                    selection = numpy.ma.getmask(indexes)
-                    if selection is not numpy.ma.nomask:
-                        selection = numpy.bitwise_not(selection)
-                        weight = weight[selection]
-                        weight2 = weight2[selection]
-                numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwxindex], indexes.compressed(), sumx * weight)
-                numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwx2index], indexes.compressed(), sumx2 * weight)
+            if indexes is None and weight2 is not None:
+                indexes = numpy.ma.zeros(len(weight), dtype=histbook.calc.INDEXTYPE)
+            elif indexes is None and len(axissumx) > 0:
+                indexes = numpy.ma.zeros(len(axissumx[0]), dtype=histbook.calc.INDEXTYPE)
 
-            if weight2 is None:
-                if indexes is None:
-                    content.reshape((-1, self._shape[-1]))[:, self._sumwindex] += (1 if length is None else length) * weight
-                else:
-                    numpy.add.at(content.reshape((-1, self._shape[-1]))[:, self._sumwindex], indexes.compressed(), weight)
-            else:
-                if indexes is None:
-                    indexes = numpy.ma.zeros(len(weight), dtype=histbook.calc.INDEXTYPE)
+            if indexes is not None:
                 selection = numpy.ma.getmask(indexes)
                 if selection is not numpy.ma.nomask:
+                    # some values are not in any bin
                     selection = numpy.bitwise_not(selection)
-                    weight = weight[selection]
-                    weight2 = weight2[selection]
-                numpy.add.at(content.reshape((-1, self._shape[-1]))[:, self._sumwindex], indexes.compressed(), weight)
-                numpy.add.at(content.reshape((-1, self._shape[-1]))[:, self._sumw2index], indexes.compressed(), weight2)
+                    axissumx = [x[selection] for x in axissumx]
+                    axissumx2 = [x[selection] for x in axissumx2]
+                    if weight2 is not None:
+                        weight = weight[selection]
+                        weight2 = weight2[selection]
+                indexes = indexes.compressed()
+
+            for sumx, sumx2, axis in zip(axissumx, axissumx2, self._profile):
+                numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwxindex], indexes, sumx * weight)
+                numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwx2index], indexes, sumx2 * weight)
+
+            if indexes is None:
+                content.reshape((-1, self._shape[-1]))[:, self._sumwindex] += (1 if length is None else length) * weight
+            else:
+                numpy.add.at(content.reshape((-1, self._shape[-1]))[:, self._sumwindex], indexes, weight)
+                if weight2 is not None:
+                    numpy.add.at(content.reshape((-1, self._shape[-1]))[:, self._sumw2index], indexes, weight2)
 
         def filldict(j, content, indexes, axissumx, axissumx2, weight, weight2, allselection):
             if j == len(self._group):
-- 
2.43.0


From 39aabbd51efeb775f3383db4ef770f246139f34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:34 +0000
Subject: [PATCH 14/53] fix: evaluate negated boolean fields as negated

---
 histbook/instr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/histbook/instr.py b/histbook/instr.py
index 15ab458..0e4b4c5 100644
--- a/histbook/instr.py
+++ b/histbook/instr.py
@@ -159,7 +159,10 @@ def totree(expr):
 
         return histbook.expr.Call(fcn, left, right)
 
-    if isinstance(expr, (histbook.expr.Const, histbook.expr.Name, histbook.expr.Predicate)):
+    if isinstance(expr, histbook.expr.Predicate) and not expr.positive:
+        return histbook.expr.Call("numpy.logical_not", expr.negate())
+
+    elif isinstance(expr, (histbook.expr.Const, histbook.expr.Name, histbook.expr.Predicate)):
         return expr
 
     elif isinstance(expr, histbook.expr.Call):
-- 
2.43.0


From cb0e0509582bb3cdeb6784270dd51a555951eec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:36 +0000
Subject: [PATCH 15/53] fix: evaluate membership in a set of constants

numpy.isin treats a Python set as a single object, so "in" was always False.
---
 histbook/calc/__init__.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index c9c8495..10f9587 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -43,10 +43,14 @@ library["numpy.equal"] = numpy.equal
 library["numpy.not_equal"] = numpy.not_equal
 library["numpy.less"] = numpy.less
 library["numpy.less_equal"] = numpy.less_equal
-try:
-    library["numpy.isin"] = numpy.isin
-except AttributeError:
-    library["numpy.isin"] = numpy.in1d
+def isin(values, candidates):
+    if isinstance(candidates, (set, frozenset)):
+        candidates = list(candidates)      # Numpy takes a set to be a single object
+    try:
+        return numpy.isin(values, candidates)
+    except AttributeError:
+        return numpy.in1d(values, candidates)
+library["numpy.isin"] = isin
 library["numpy.logical_or"] = numpy.logical_or
 library["numpy.logical_and"] = numpy.logical_and
 library["numpy.logical_not"] = numpy.logical_not
-- 
2.43.0


From fc77db2c3268c0c4bcd2b0408f323de7b6d29b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:14 +0000
Subject: [PATCH 16/53] fix: project away group axes with any number of
 categories

Only powers of two greater than one worked; a single category or none, or an odd
number of them, gave lists instead of sums or raised.
---
 histbook/proj.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 6063808..3b36041 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -259,23 +259,21 @@ class Projectable(object):
 
         def addall(values):
             assert len(values) != 0
-            left = values[:len(values) // 2]
-            right = values[len(values) // 2:]
-            if len(left) == 0:
-                return right
-            elif len(right) == 0:
-                return left
-            elif len(left) == 1 and len(right) == 1:
-                return addany(left[0], right[0])
+            if len(values) == 1:
+                return values[0]
             else:
-                return addall([addall(left)] + [addall(right)])
-            
+                return addany(addall(values[:len(values) // 2]), addall(values[len(values) // 2:]))
+
         def projcontent(j, content):
             if j < len(self._group):
                 if allaxis[j] in axis:
                     return dict((n, projcontent(j + 1, x)) for n, x in content.items())
-                else:
+                elif len(content) != 0:
                     return addall([projcontent(j + 1, x) for x in content.values()])
+                elif any(x in axis for x in self._group[j + 1:]):
+                    return {}
+                else:
+                    return projarray(numpy.zeros(self._shape, dtype=self.COUNTTYPE))
             else:
                 return projarray(content)
 
-- 
2.43.0


From 38bed45c3d091a8673704b2d541323afbab8fdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:17 +0000
Subject: [PATCH 17/53] fix: a selection on a group axis does not share bins
 with its source

---
 histbook/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 3b36041..c70e9d3 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -464,7 +464,7 @@ class Projectable(object):
 
             if isinstance(allaxis[i], (histbook.axis.groupby, histbook.axis.groupbin)):
                 if allaxis[i] is cutaxis:
-                    return dict((n, x) for n, x in content.items() if cutslice(n))
+                    return dict((n, self._copycontent(x)) for n, x in content.items() if cutslice(n))
                 else:
                     return dict((n, cutcontent(i + 1, x)) for n, x in content.items())
 
-- 
2.43.0


From 490f02b35eb7e7aa7fbe7410106ff1e68e07af91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:19 +0000
Subject: [PATCH 18/53] fix: drop keeps the right columns

It mixed up the two columns per profile when some profiles are kept, and lost
the sum of squared weights of histograms with a filter but no weight.
---
 histbook/proj.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index c70e9d3..17bb6cf 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -201,13 +201,14 @@ class Projectable(object):
         
         axis = []
         index = []
-        for i, prof in enumerate(self._profile):
+        for prof in self._profile:
             if prof not in profile:
                 axis.append(prof)
-                index.append(i)
+                index.append(prof._sumwxindex)
+                index.append(prof._sumwx2index)
 
         index.append(self._sumwindex)
-        if self._weightoriginal is not None:
+        if self._weightparsed is not None:
             index.append(self._sumw2index)
 
         slc = (slice(None),) * (len(self._shape) - 1) + (index,)
-- 
2.43.0


From b87b419a4c398ece7e28545f421db21d0c3d6c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:21 +0000
Subject: [PATCH 19/53] fix: fraction works for histograms without profiles

---
 histbook/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 17bb6cf..9adb4a5 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -681,7 +681,7 @@ class Projectable(object):
                 cutindex.append(self._fixed.index(c))
         cut = [self._fixed[i] for i in cutindex]
 
-        noprofiles = self.drop(*self._profile)
+        noprofiles = self.drop(*self._profile) if len(self._profile) > 0 else self
         denomhist = noprofiles.project(*[x for x in self._group + self._fixed if x not in cut])
         cuthist = []
         for c in cut:
-- 
2.43.0


From 8e60cfc3db3b1a68abbd9addf74ef44adf42bcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:50 +0000
Subject: [PATCH 20/53] fix: make rebinby work

It called the wrong axis method, whose implementations had undefined names,
divided instead of multiplied the groupbin width, could not add nested
categories and would have shared bins with the source.
---
 histbook/axis.py | 39 +++++++++++++++++++--------------------
 histbook/proj.py |  4 ++--
 2 files changed, 21 insertions(+), 22 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 9c9def7..e4a1d07 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -430,41 +430,40 @@ class groupbin(GroupAxis, _RebinFactor):
     def _rebinfactor(self, factor, content, index):
         assert factor > 0
 
-        newaxis = groupbin(self._expr, float(self._binwidth) / float(factor), origin=self._origin, nanflow=self._nanflow, closedlow=self._closedlow)
+        newaxis = groupbin(self._expr, float(self._binwidth) * float(factor), origin=self._origin, nanflow=self._nanflow, closedlow=self._closedlow)
         if hasattr(self, "_original"):
             newaxis._original = self._original
         if hasattr(self, "_parsed"):
             newaxis._parsed = self._parsed
 
+        def add(left, right):
+            if isinstance(left, dict):
+                out = dict((n, add(x, right[n]) if n in right else x) for n, x in left.items())
+                out.update((n, x) for n, x in right.items() if n not in left)
+                return out
+            else:
+                return left + right
+
         def recurse(j, content):
             if j == index:
                 out = {}
                 for n, x in content.items():
-                    if n == "NaN":
+                    if n != "NaN" and numpy.isfinite(n):
+                        # keys are low edges, regardless of which edge is closed
+                        binindex = int(round((n - float(self._origin)) / float(self._binwidth)))
+                        n = (binindex // int(factor)) * float(newaxis._binwidth) + float(newaxis._origin)
+                    if n not in out:
                         out[n] = recurse(j + 1, x)
-
                     else:
-                        index = (n - float(self._origin)) / float(self._binwidth)
-                        if self._closedlow:
-                            index = int(numpy.floor(index))
-                        else:
-                            index = int(numpy.ceil(index)) - 1
-
-                        index = index // int(factor)
-
-                        n = index * float(newindex._binwidth) + float(newaxis._origin)
-                        if n not in out:
-                            out[n] = recurse(j + 1, x)
-                        else:
-                            out[n] += recurse(j + 1, x)
+                        out[n] = add(out[n], recurse(j + 1, x))
 
                 return out
-                        
+
             elif isinstance(content, dict):
                 return dict((n, recurse(j + 1, x)) for n, x in content.items())
 
             else:
-                return content
+                return content.copy()
 
         if content is None:
             return newaxis, None
@@ -909,7 +908,7 @@ class intbin(FixedAxis, _RebinFactor, _RebinSplit):
         return self.bin()._rebinsplit(edges, content, index)
 
     def _rebinfactor(self, factor, content, index):
-        return self.bin()._rebinfactor(edges, content, index)
+        return self.bin()._rebinfactor(factor, content, index)
 
     def _select(self, cmp, value, tolerance):
         if value == float("-inf") and cmp == ">=":
@@ -1208,7 +1207,7 @@ class split(FixedAxis, _RebinFactor, _RebinSplit):
 
     def _rebinfactor(self, factor, content, index):
         assert factor > 0
-        return self._rebinsplit(self.edges[0:-1:factor] + self.edges[-1], content, index)
+        return self._rebinsplit(self.edges[0:-1:factor] + (self.edges[-1],), content, index)
 
     def _select(self, cmp, value, tolerance):
         if value == float("-inf") and cmp == ">=":
diff --git a/histbook/proj.py b/histbook/proj.py
index 9adb4a5..6480020 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -169,9 +169,9 @@ class Projectable(object):
             raise IndexError("no such rebinnable axis: {0}".format(axis))
 
         if isinstance(axis, histbook.axis.GroupAxis):
-            newaxis, newcontent = axis._rebinsplit(factor, self._content, index)
+            newaxis, newcontent = axis._rebinfactor(factor, self._content, index)
         else:
-            newaxis, newcontent = axis._rebinsplit(factor, self._content, index - len(self._group))
+            newaxis, newcontent = axis._rebinfactor(factor, self._content, index - len(self._group))
 
         outaxis = [newaxis if i == index else x for i, x in enumerate(self._group + self._fixed + self._profile)]
         out = self.__class__(*outaxis, weight=self._weightoriginal, filter=self._filteroriginal, defs=dict(self._defs), attachment=dict(self._attachment))
-- 
2.43.0


From 8db01513aea608faf662bde0c7809af944f34b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:47 +0000
Subject: [PATCH 21/53] fix: group histograms that were never filled or have
 only a filter; make togroup work

Grouping a never-filled histogram stored no content for it, a filter without a
weight gave contents of the wrong shape, and togroup could not be called.
---
 histbook/hist.py | 51 +++++++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 3561bd4..b79ef49 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -380,10 +380,13 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
 
     def _prefill(self):
         if self._content is None:
-            if len(self._group) == 0:
-                self._content = numpy.zeros(self._shape, dtype=self.COUNTTYPE)
-            else:
-                self._content = {}
+            self._content = self._emptycontent()
+
+    def _emptycontent(self):
+        if len(self._group) == 0:
+            return numpy.zeros(self._shape, dtype=self.COUNTTYPE)
+        else:
+            return {}
 
     def _postfill(self, arrays, length):
         j = len(self._group)
@@ -636,6 +639,10 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if histbook.axis.groupby(by) in axis:
             raise ValueError("groupby({0}) already exists in these histograms; use hist.togroup(other) to add to a group".format(repr(by)))
 
+        weighted = hist._weightparsed is not None
+        if any((x._weightparsed is not None) != weighted for x in hists.values()):
+            raise TypeError("histograms can only be grouped with the same weight specifications")
+
         weight = None
         for x in hists.values():
             if weight is None:
@@ -644,7 +651,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 raise TypeError("histograms can only be grouped with the same weight specifications")
             elif weight != x._weightoriginal:
                 weight = 1.0
-                
+        if weight is None and weighted:
+            weight = 1.0       # filters are not kept, but the sum of squared weights is
+
         defs = {}
         for x in hists.values():
             defs.update(x._defs)
@@ -652,10 +661,10 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         out = cls(*((histbook.axis.groupby(by),) + hist._group + hist._fixed + hist._profile), weight=weight, filter=None, defs=dict(defs), attachment=None)
         out._content = {}
         for n, x in hists.items():
-            out._content[n] = cls._copycontent(x._content)
+            out._content[n] = x._emptycontent() if x._content is None else cls._copycontent(x._content)
         return out
 
-    def togroup(**hists):
+    def togroup(self, **hists):
         u"""
         Add histograms to the :py:class:`groupby <histbook.axis.groupby>` that is the first axis.
 
@@ -675,24 +684,26 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         for x in hists.values():
             if self._group[1:] + self._fixed + self._profile != x._group + x._fixed + x._profile:
                 raise TypeError("histograms can only be grouped with the same axis specifications")
+            if (self._weightparsed is None) != (x._weightparsed is None):
+                raise TypeError("histograms can only be grouped with the same weight specifications")
 
         def add(selfcontent, othercontent):
-            assert isinstance(selfcontent, dict) and isinstance(othercontent, dict)
-            for n in selfcontent:
-                if n in othercontent:
-                    if isinstance(selfcontent[n], numpy.ndarray):
-                        selfcontent[n] += othercontent[n]
-                    else:
+            if isinstance(selfcontent, numpy.ndarray):
+                selfcontent += othercontent
+            else:
+                for n in othercontent:
+                    if n in selfcontent:
                         add(selfcontent[n], othercontent[n])
-            for n in othercontent:
-                if n not in selfcontent:
-                    selfcontent[n] = Hist._copycontent(othercontent[n])
+                    else:
+                        selfcontent[n] = Hist._copycontent(othercontent[n])
 
+        self._unshare()
+        self._prefill()
         for n, x in hists.items():
-            if n in self._content:
-                add(self._content[n], other._content)
-            else:
-                self._content[n] = Hist._copycontent(other._content)
+            if n not in self._content:
+                self._content[n] = x._emptycontent()
+            if x._content is not None:
+                add(self._content[n], x._content)
 
     def tojson(self):
         out = {"type": "Hist", "axis": [x.tojson() for x in self._group + self._fixed + self._profile]}
-- 
2.43.0


From 52666d729985360ba975e90fe2ade5f9a46f7f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:50 +0000
Subject: [PATCH 22/53] fix: Book.fill from Spark imports threading and raises
 if a job fails

---
 histbook/book.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/histbook/book.py b/histbook/book.py
index 0ff987b..9a32298 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -32,6 +32,7 @@ import collections
 import fnmatch
 import functools
 import sys
+import threading
 
 import numpy
 
@@ -591,13 +592,22 @@ class Book(GenericBook, histbook.fill.Fillable):
 
         if histbook.calc.spark.isspark(arrays, more):
             # pyspark.DataFrame
-            threads = [threading.Thread(target=histbook.calc.spark.fillspark(x, arrays)) for x in self.itervalues(recursive=True, onlyhist=True)]
+            errors = []
+            def run(wait):
+                try:
+                    wait()
+                except BaseException as err:
+                    errors.append(err)
+
+            threads = [threading.Thread(target=run, args=(histbook.calc.spark.fillspark(x, arrays),)) for x in self.itervalues(recursive=True, onlyhist=True)]
             for x in self.itervalues(recursive=True, onlyhist=True):
                 x._prefill()
             for x in threads:
                 x.start()
             for x in threads:
                 x.join()
+            if len(errors) > 0:
+                raise errors[0]
 
         elif arrays.__class__.__name__ == "DataFrame" and arrays.__class__.__module__ == "pandas.core.frame":
             # pandas.DataFrame
-- 
2.43.0


From 3a0b871ba008765684625c52f3fef71819583442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:53 +0000
Subject: [PATCH 23/53] fix: Spark fill of group axes and of histograms with a
 filter but no weight

---
 histbook/calc/spark.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/histbook/calc/spark.py b/histbook/calc/spark.py
index 46f6562..3696397 100644
--- a/histbook/calc/spark.py
+++ b/histbook/calc/spark.py
@@ -241,18 +241,18 @@ def fillspark(hist, df):
     index = alias(fcns.struct(*indexes))
 
     selectcols = [index]
-    if hist._weightoriginal is not None:
+    if hist._weightparsed is not None:
         weightcol = tocolumns(df, histbook.instr.totree(hist._weightparsed))
     for axis in hist._profile:
         exprcol = tocolumns(df, histbook.instr.totree(axis._parsed))
-        if hist._weightoriginal is None:
+        if hist._weightparsed is None:
             selectcols.append(alias(exprcol))
             selectcols.append(alias(exprcol*exprcol))
         else:
             selectcols.append(alias(exprcol*weightcol))
             selectcols.append(alias(exprcol*exprcol*weightcol))
 
-    if hist._weightoriginal is None:
+    if hist._weightparsed is None:
         df2 = df.select(*selectcols)
     else:
         selectcols.append(alias(weightcol))
@@ -260,7 +260,7 @@ def fillspark(hist, df):
         df2 = df.select(*selectcols)
 
     aggs = [fcns.sum(df2[n]) for n in df2.columns[1:]]
-    if hist._weightoriginal is None:
+    if hist._weightparsed is None:
         aggs.append(fcns.count(df2[df2.columns[0]]))
 
     def getornew(content, key, nextaxis):
@@ -269,7 +269,7 @@ def fillspark(hist, df):
         elif isinstance(nextaxis, histbook.axis.GroupAxis):
             return {}
         else:
-            return numpy.zeros(hist._shape, dtype=histbook.hist.COUNTTYPE)
+            return numpy.zeros(hist._shape, dtype=hist.COUNTTYPE)
 
     def recurse(index, columns, axis, content):
         if len(axis) == 0:
-- 
2.43.0


From bc27a4e268cd2810c081efef22ffd9449610551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:09 +0000
Subject: [PATCH 24/53] fix: Spark fill puts under-, over- and nanflow where
 the array fill does

With a flow bin disabled, values landed in a neighbouring (or the last) bin, and
integers above the range were counted in the last finite bin.
---
 histbook/calc/spark.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/histbook/calc/spark.py b/histbook/calc/spark.py
index 3696397..f23bbc2 100644
--- a/histbook/calc/spark.py
+++ b/histbook/calc/spark.py
@@ -214,7 +214,7 @@ def fillspark(hist, df):
             indexes.append(fcns.when(fcns.isnull(exprcol) | fcns.isnan(exprcol), int(axis.numbins) + 2).otherwise(fcns.greatest(fcns.lit(0), fcns.least(fcns.lit(int(axis.numbins) + 1), discretized))))
 
         elif isinstance(axis, histbook.axis.intbin):
-            indexes.append(fcns.greatest(fcns.lit(0), fcns.least(fcns.lit(int(axis.max) - int(axis.min) + 1), fcns.round(exprcol - int(axis.min) + 1))))
+            indexes.append(fcns.greatest(fcns.lit(0), fcns.least(fcns.lit(int(axis.max) - int(axis.min) + 2), fcns.round(exprcol - int(axis.min) + 1))))
 
         elif isinstance(axis, histbook.axis.split):
             def build(x, i):
@@ -282,9 +282,20 @@ def fillspark(hist, df):
                 del content[None]
 
         elif isinstance(axis[0], (histbook.axis.bin, histbook.axis.intbin, histbook.axis.split)):
-            i = index[0] - (1 if not axis[0].underflow else 0)
-            if int(i) < axis[0].totbins:
-                recurse(index[1:], columns, axis[1:], content[int(i)])
+            # Spark index is 0 for underflow, 1 to numbins for the finite bins, then overflow, then nanflow
+            i = int(index[0])
+            if i == 0:
+                exists = axis[0].underflow
+            elif i == axis[0].numbins + 1:
+                exists = axis[0].overflow
+            elif i == axis[0].numbins + 2:
+                exists = axis[0].nanflow
+                i -= 0 if axis[0].overflow else 1
+            else:
+                exists = True
+            i -= 0 if axis[0].underflow else 1
+            if exists:
+                recurse(index[1:], columns, axis[1:], content[i])
 
         elif isinstance(axis[0], histbook.axis.cut):
             recurse(index[1:], columns, axis[1:], content[0 if index[0] else 1])
-- 
2.43.0


From 17ca5185dc075658c6b1920c9b46acee065d0cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:11 +0000
Subject: [PATCH 25/53] fix: Spark fill with membership in a set of constants

---
 histbook/calc/spark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/calc/spark.py b/histbook/calc/spark.py
index f23bbc2..2045f68 100644
--- a/histbook/calc/spark.py
+++ b/histbook/calc/spark.py
@@ -166,7 +166,7 @@ def tocolumns(df, expr):
         elif expr.fcn == "numpy.less_equal":
             return tocolumns(df, expr.args[0]) <= tocolumns(df, expr.args[1])
         elif expr.fcn == "numpy.isin":
-            return tocolumns(df, expr.args[0]) in tocolumns(df, expr.args[1])
+            return tocolumns(df, expr.args[0]).isin(list(expr.args[1].value))
         elif expr.fcn == "numpy.logical_not":
             return ~tocolumns(df, expr.args[0])
         elif expr.fcn == "numpy.add":
-- 
2.43.0


From cf1fe4d32bf75e28ba364ef1e320375a0738c9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:34 +0000
Subject: [PATCH 26/53] fix: product of two sums keeps the product of their
 constants

2*(y - 1) was simplified to 2*y.
---
 histbook/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 8b864ea..aca5deb 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -789,7 +789,7 @@ class RingAlgebraAddLike(RingAlgebra):
         pos += [op.subop.combine(x, y) for x, y in itertools.product(left.neg, right.neg)]
         neg += [op.subop.combine(x, y) for x, y in itertools.product(left.neg, right.pos)]
 
-        return op.collect(op(op.identity, tuple(pos), tuple(neg)))
+        return op.collect(op(op.subop.calcval(left.const, right.const), tuple(pos), tuple(neg)))
 
     def simplify(self):
         out = self.__class__(self.const, self.pos, self.neg)
-- 
2.43.0


From 27838e05733a2eb0c49bbcfb90d8c14a0d1f2c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:04 +0000
Subject: [PATCH 27/53] fix: cancelling common factors removes the factor that
 matched

x*y*z/(x*y) was simplified to y, x*y/(x*y) raised an IndexError.
---
 histbook/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index aca5deb..7197b7c 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -723,7 +723,7 @@ class RingAlgebraAddLike(RingAlgebra):
             pos, neg = list(x.pos), []
             for y in x.neg:
                 try:
-                    i = x.pos.index(y)
+                    i = pos.index(y)
                 except ValueError:
                     neg.append(y)
                 else:
-- 
2.43.0


From 0f3c31c6ea93850c4349c251d37cdca90717fa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:16 +0000
Subject: [PATCH 28/53] fix: grouping books keeps the order of their content

The order came from a set of names, so it depended on the hash seed.
---
 histbook/book.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/book.py b/histbook/book.py
index 9a32298..8414288 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -522,7 +522,7 @@ class GenericBook(collections.MutableMapping):
             raise TypeError("only histogram books can be grouped with other books")
 
         content = collections.OrderedDict()
-        for name in functools.reduce(set.union, (set(book.iterkeys()) for book in books.values())):
+        for name in collections.OrderedDict((name, None) for book in books.values() for name in book.iterkeys()):
             nestcls = tuple(set(book[name].__class__ for book in books.values() if name in book))
             if len(nestcls) != 1:
                 raise TypeError("books at {0} have different types: {1}".format(repr(name), ", ".join(repr(x) for x in nestcls)))
-- 
2.43.0


From 55101c2d09d48dd3f571319305332de2568c04e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:57 +0000
Subject: [PATCH 29/53] fix: JSON of groupbin content filled from single
 precision data

---
 histbook/hist.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index b79ef49..a7a7a3e 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -714,12 +714,16 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if self._defs is not None and len(self._defs) != 0:
             out["defs"] = dict(self._defs)
         if self._content is not None:
-            def recurse(node):
+            def key(j, n):
+                # groupbin keys are of the same type as the data, which may not be a JSON type (numpy.float32)
+                return float(n) if isinstance(self._group[j], histbook.axis.groupbin) and n != "NaN" else n
+
+            def recurse(j, node):
                 if isinstance(node, dict):
-                    return dict((n, recurse(x)) for n, x in node.items())
+                    return dict((key(j, n), recurse(j + 1, x)) for n, x in node.items())
                 else:
                     return node.tolist()
-            out["content"] = recurse(self._content)
+            out["content"] = recurse(0, self._content)
         if len(self._attachment) != 0:
             out["attachment"] = dict(self._attachment)
         return out
-- 
2.43.0


From 4b9e8410bb3922573994f0996720526e30e37892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:40 +0000
Subject: [PATCH 30/53] fix: values a histogram cannot accumulate are rejected
 before any content changes

A weight or profile column of objects failed after some sums, or other
histograms of the book, had already been filled.
---
 histbook/book.py |  4 ++--
 histbook/hist.py | 25 ++++++++++++++++---------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 8414288..3c26945 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -627,8 +627,8 @@ class Book(GenericBook, histbook.fill.Fillable):
             for x in self.itervalues(recursive=True, onlyhist=True):
                 x._prefill()
             length = self._fill(arrays)
-            for x in self.itervalues(recursive=True, onlyhist=True):
-                x._postfill(arrays, length)
+            for accumulate in [x._postfill(arrays, length) for x in self.itervalues(recursive=True, onlyhist=True)]:
+                accumulate()
 
 ################################################################ for constructing fillable views
 
diff --git a/histbook/hist.py b/histbook/hist.py
index a7a7a3e..9c02417 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -376,7 +376,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
 
             self._prefill()
             length = self._fill(arrays)
-            self._postfill(arrays, length)
+            self._postfill(arrays, length)()
 
     def _prefill(self):
         if self._content is None:
@@ -389,6 +389,10 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             return {}
 
     def _postfill(self, arrays, length):
+        # anything that can go wrong with the data goes wrong here; the returned function changes the content
+        def numeric(array):
+            return numpy.asarray(array, dtype=self.COUNTTYPE)
+
         j = len(self._group)
         step = 0
         indexes = None
@@ -405,8 +409,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
 
         axissumx, axissumx2 = [], []
         for axis in self._profile:
-            axissumx.append(self._destination[0][j])
-            axissumx2.append(self._destination[0][j + 1])
+            axissumx.append(numeric(self._destination[0][j]))
+            axissumx2.append(numeric(self._destination[0][j + 1]))
             j += 2
 
         if self._weightparsed is None:
@@ -416,8 +420,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             weight = numpy.ones(length) * self._weightparsed.value
             weight2 = numpy.ones(length) * self._weightparsed.value**2
         else:
-            weight = self._destination[0][j]
-            weight2 = self._destination[0][j + 1]
+            weight = numeric(self._destination[0][j])
+            weight2 = numeric(self._destination[0][j + 1])
             selection = numpy.isnan(weight)
             if selection.any():
                 weight = weight.copy()
@@ -493,10 +497,13 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
 
                     filldict(j + 1, subcontent, subindexes, subaxissumx, subaxissumx2, subweight, subweight2, suballselection)
 
-        filldict(0, self._content, indexes, axissumx, axissumx2, weight, weight2, None)
-            
-        for j in range(len(self._destination[0])):
-            self._destination[0][j] = None
+        def accumulate():
+            filldict(0, self._content, indexes, axissumx, axissumx2, weight, weight2, None)
+
+            for j in range(len(self._destination[0])):
+                self._destination[0][j] = None
+
+        return accumulate
 
     def __add__(self, other):
         if not isinstance(other, Hist):
-- 
2.43.0


From 8caa2503fea66f8101815306a9db20d4eaff17b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:45 +0000
Subject: [PATCH 31/53] fix: a histogram stored at two paths of a book is
 filled once

---
 histbook/book.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 3c26945..0f70b21 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -549,11 +549,15 @@ class Book(GenericBook, histbook.fill.Fillable):
     def _changed(self):
         self._fields = None
 
+    def _hists(self):
+        # each histogram once, even if it can be found at several paths
+        return list(collections.OrderedDict((id(x), x) for x in self.itervalues(recursive=True, onlyhist=True)).values())
+
     @property
     def fields(self):
         """Names of fields that must be provided in the ``fill`` method."""
         # nested books can be changed without notifying this one, so verify that the plan is for the current histograms
-        hists = self.values(recursive=True, onlyhist=True)
+        hists = self._hists()
         if self._fields is not None and (len(hists) != len(self._planned) or any(x is not y for x, y in zip(hists, self._planned))):
             self._fields = None
         self._planned = hists
@@ -561,11 +565,11 @@ class Book(GenericBook, histbook.fill.Fillable):
 
     @property
     def _goals(self):
-        return functools.reduce(set.union, (x._goals for x in self.itervalues(recursive=True, onlyhist=True)), set())
+        return functools.reduce(set.union, (x._goals for x in self._hists()), set())
 
     def _streamline(self, i, instructions):
         self._destination = []
-        for i, x in enumerate(self.itervalues(recursive=True, onlyhist=True)):
+        for i, x in enumerate(self._hists()):
             self._destination.append(x._destination[0])
             x._streamline(i, instructions)
         return instructions
@@ -587,7 +591,7 @@ class Book(GenericBook, histbook.fill.Fillable):
             more field values
         """
 
-        for x in self.itervalues(recursive=True, onlyhist=True):
+        for x in self._hists():
             x._unshare()
 
         if histbook.calc.spark.isspark(arrays, more):
@@ -599,8 +603,8 @@ class Book(GenericBook, histbook.fill.Fillable):
                 except BaseException as err:
                     errors.append(err)
 
-            threads = [threading.Thread(target=run, args=(histbook.calc.spark.fillspark(x, arrays),)) for x in self.itervalues(recursive=True, onlyhist=True)]
-            for x in self.itervalues(recursive=True, onlyhist=True):
+            threads = [threading.Thread(target=run, args=(histbook.calc.spark.fillspark(x, arrays),)) for x in self._hists()]
+            for x in self._hists():
                 x._prefill()
             for x in threads:
                 x.start()
@@ -624,10 +628,10 @@ class Book(GenericBook, histbook.fill.Fillable):
             else:
                 arrays = histbook.util.ChainedDict(arrays, more)
 
-            for x in self.itervalues(recursive=True, onlyhist=True):
+            for x in self._hists():
                 x._prefill()
             length = self._fill(arrays)
-            for accumulate in [x._postfill(arrays, length) for x in self.itervalues(recursive=True, onlyhist=True)]:
+            for accumulate in [x._postfill(arrays, length) for x in self._hists()]:
                 accumulate()
 
 ################################################################ for constructing fillable views
-- 
2.43.0


From 1585df3e1e99e65aa9b09319793a99ce7f3f7613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:07 +0000
Subject: [PATCH 32/53] fix: unhashable categories are rejected before any
 content changes

---
 histbook/hist.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/histbook/hist.py b/histbook/hist.py
index 9c02417..5eb8b0f 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -393,6 +393,10 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         def numeric(array):
             return numpy.asarray(array, dtype=self.COUNTTYPE)
 
+        for uniques, inverse in self._destination[0][:len(self._group)]:
+            for unique in uniques:
+                hash(unique)    # will be a key of the content
+
         j = len(self._group)
         step = 0
         indexes = None
-- 
2.43.0


From c19b5f262bb428ce9eb53f6e9e8fc23313765068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:55 +0000
Subject: [PATCH 33/53] fix: reading a never-filled histogram, or a fill that
 fails, does not make it different

table, fraction and indexing created bins of zeros in the histogram, after
which it no longer compared equal to its own copies; groupkeys failed.
---
 histbook/book.py |  7 ++++---
 histbook/hist.py | 21 +++++++++++----------
 histbook/proj.py |  8 ++------
 3 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 0f70b21..02b1076 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -628,11 +628,12 @@ class Book(GenericBook, histbook.fill.Fillable):
             else:
                 arrays = histbook.util.ChainedDict(arrays, more)
 
+            length = self._fill(arrays)
+            accumulate = [x._postfill(arrays, length) for x in self._hists()]
             for x in self._hists():
                 x._prefill()
-            length = self._fill(arrays)
-            for accumulate in [x._postfill(arrays, length) for x in self._hists()]:
-                accumulate()
+            for x in accumulate:
+                x()
 
 ################################################################ for constructing fillable views
 
diff --git a/histbook/hist.py b/histbook/hist.py
index 5eb8b0f..b047cc0 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -374,14 +374,18 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             else:
                 arrays = histbook.util.ChainedDict(arrays, more)
 
-            self._prefill()
             length = self._fill(arrays)
-            self._postfill(arrays, length)()
+            accumulate = self._postfill(arrays, length)
+            self._prefill()
+            accumulate()
 
     def _prefill(self):
         if self._content is None:
             self._content = self._emptycontent()
 
+    def _contentorempty(self):
+        return self._emptycontent() if self._content is None else self._content
+
     def _emptycontent(self):
         if len(self._group) == 0:
             return numpy.zeros(self._shape, dtype=self.COUNTTYPE)
@@ -672,7 +676,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         out = cls(*((histbook.axis.groupby(by),) + hist._group + hist._fixed + hist._profile), weight=weight, filter=None, defs=dict(defs), attachment=None)
         out._content = {}
         for n, x in hists.items():
-            out._content[n] = x._emptycontent() if x._content is None else cls._copycontent(x._content)
+            out._content[n] = cls._copycontent(x._contentorempty())
         return out
 
     def togroup(self, **hists):
@@ -769,16 +773,14 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
 
     def __eq__(self, other):
         def recurse(one, two):
-            if one is None and two is None:
-                return True
-            elif isinstance(one, dict) and isinstance(two, dict):
+            if isinstance(one, dict) and isinstance(two, dict):
                 return set(one.keys()) == set(two.keys()) and all(recurse(one[n], two[n]) for n in one)
             elif isinstance(one, numpy.ndarray) and isinstance(two, numpy.ndarray):
                 return numpy.array_equal(one, two)
             else:
                 return False
 
-        return self.__class__ is other.__class__ and self._group == other._group and self._fixed == other._fixed and self._profile == other._profile and self._weightparsed == other._weightparsed and self._filterparsed == other._filterparsed and self._defs == other._defs and recurse(self._content, other._content) and self._attachment == other._attachment
+        return self.__class__ is other.__class__ and self._group == other._group and self._fixed == other._fixed and self._profile == other._profile and self._weightparsed == other._weightparsed and self._filterparsed == other._filterparsed and self._defs == other._defs and recurse(self._contentorempty(), other._contentorempty()) and self._attachment == other._attachment
 
     def __ne__(self, other):
         return not self.__eq__(other)
@@ -790,8 +792,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
     def __getitem__(self, where):
         if not isinstance(where, tuple):
             where = (where,)
-        self._prefill()
-        out = self._content
+        out = self._contentorempty()
         for i in where:
             out = out[i]
         return out
@@ -828,5 +829,5 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 for x in content.values():
                     recurse(j + 1, x)
         
-        recurse(0, self._content)
+        recurse(0, self._contentorempty())
         return out
diff --git a/histbook/proj.py b/histbook/proj.py
index 6480020..894d0b3 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -522,8 +522,6 @@ class Projectable(object):
         if len(opts) > 0:
             raise TypeError("unrecognized options for Hist.table: {0}".format(" ".join(opts)))
 
-        self._prefill()
-
         profile = [x if isinstance(x, histbook.axis.Axis) else self.axis.profile(x) for x in profile]
         profileindex = []
         for prof in profile:
@@ -621,7 +619,7 @@ class Projectable(object):
             else:
                 return handlearray(content)
 
-        out = handle(self._content)
+        out = handle(self._contentorempty())
 
         if showcolumns:
             return out, columns
@@ -669,8 +667,6 @@ class Projectable(object):
         if len(opts) > 0:
             raise TypeError("unrecognized options for Hist.table: {0}".format(" ".join(opts)))
 
-        self._prefill()
-
         cut = [x if isinstance(x, histbook.axis.Axis) else self.axis.cut(x) for x in cut]
 
         cutindex = []
@@ -782,7 +778,7 @@ class Projectable(object):
             else:
                 return handlearray(denomcontent, cutcontent)
 
-        out = handle(denomhist._content, [x._content for x in cuthist])
+        out = handle(denomhist._contentorempty(), [x._contentorempty() for x in cuthist])
 
         if showcolumns:
             out = out, columns
-- 
2.43.0


From dc6197fddf6d5580077ba229894b2f7d10029a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:55 +0000
Subject: [PATCH 34/53] fix: histograms made with the same attachment dict do
 not share it

---
 histbook/hist.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index b047cc0..93a9389 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -144,7 +144,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             elif "systematic" in attachment:
                 raise ValueError("systematic provided as a keyword option and also found in attachment")
             else:
-                attachment["systematic"] = systematic
+                attachment = dict(attachment, systematic=systematic)
 
         if defs is None:
             self._defs = {}
@@ -153,7 +153,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if attachment is None:
             self._attachment = {}
         else:
-            self._attachment = attachment
+            self._attachment = dict(attachment)    # never share it with another histogram
         self._group = []
         self._fixed = []
         self._profile = []
-- 
2.43.0


From b7beff9f2d2611306dbf1838d046e070fd0b0a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:20 +0000
Subject: [PATCH 35/53] fix: bin axes left without finite bins by a selection
 can be filled and selected

---
 histbook/axis.py          | 4 +++-
 histbook/calc/__init__.py | 3 ++-
 histbook/calc/spark.py    | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index e4a1d07..a8f52ac 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -631,6 +631,8 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
     def binwidth(self):
         numer = float(self._high) - float(self._low)
         denom = float(self._numbins)
+        if denom == 0:
+            return numer
         approx = numer / denom
         delta = approx - numpy.nextafter(approx, 0)
         while approx * denom >= numer:
@@ -718,7 +720,7 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
             return out, slice(self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0), self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0) + 1), None, False
 
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)):
-            scale = float(self._numbins) / float(self._high - self._low)
+            scale = float(self._numbins) / float(self._high - self._low) if self._numbins > 0 else 1.0
             edgenum = int(round((value - float(self._low)) * scale))
             close = min(self._numbins, max(0, edgenum)) / scale + float(self._low)
 
diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 10f9587..08905ad 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -217,7 +217,8 @@ def histbook_bin(underflow, overflow, nanflow, closedlow):
 
     def bin(values, numbins, low, high):
         indexes = values - float(low)
-        numpy.multiply(indexes, float(numbins) / float(high - low), indexes)
+        if high > low:     # otherwise, there are no finite bins and low is the edge between the flows
+            numpy.multiply(indexes, float(numbins) / float(high - low), indexes)
 
         if closedlow:
             numpy.floor(indexes, indexes)
diff --git a/histbook/calc/spark.py b/histbook/calc/spark.py
index 2045f68..2cf684e 100644
--- a/histbook/calc/spark.py
+++ b/histbook/calc/spark.py
@@ -206,7 +206,7 @@ def fillspark(hist, df):
             indexes.append(fcns.nanvl(discretized * float(axis.binwidth) + float(axis.origin), fcns.lit("NaN")))
 
         elif isinstance(axis, histbook.axis.bin):
-            scaled = (exprcol - float(axis.low)) * (int(axis.numbins) / (float(axis.high) - float(axis.low)))
+            scaled = (exprcol - float(axis.low)) * (int(axis.numbins) / (float(axis.high) - float(axis.low)) if axis.high > axis.low else 1.0)
             if axis.closedlow:
                 discretized = fcns.floor(scaled) + 1
             else:
-- 
2.43.0


From 22b96d0dffaa7ad8d73c2f05ab6954d3281bf797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:18 +0000
Subject: [PATCH 36/53] fix: fields used both as values and as predicates are
 reported once

---
 histbook/fill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/fill.py b/histbook/fill.py
index 2b67ecd..1368ab9 100644
--- a/histbook/fill.py
+++ b/histbook/fill.py
@@ -54,7 +54,7 @@ class Fillable(object):
             fields = histbook.instr.sources(goals, table)
 
             self._instructions = self._streamline(0, list(histbook.instr.instructions(fields, goals)))
-            self._fields = sorted(x.goal.value for x in fields)
+            self._fields = sorted(set(x.goal.value for x in fields))    # a field can be used both as a number and as a predicate
 
         return self._fields
 
-- 
2.43.0


From 7d9cd6ed8ccfae09adf95a18d25935552cc90188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:58 +0000
Subject: [PATCH 37/53] fix: copy-on-fill copies pickled together do not share
 content when restored

---
 histbook/hist.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 93a9389..49d76a0 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -764,7 +764,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
 
     def __getstate__(self):
         packed = tuple(x._pack() for x in self._group + self._fixed + self._profile)
-        return (packed, self._weightoriginal, self._filteroriginal, None if len(self._defs) == 0 else self._defs, self._content, None if len(self._attachment) == 0 else self._attachment)
+        content = self.__class__._copycontent(self._content) if self._copyonfill else self._content    # unpickled histograms do not share content
+        return (packed, self._weightoriginal, self._filteroriginal, None if len(self._defs) == 0 else self._defs, content, None if len(self._attachment) == 0 else self._attachment)
 
     def __setstate__(self, state):
         packed, weight, filter, defs, content, attachment = state
-- 
2.43.0


From be107a5af8b28aeef9b73d08ca2f304ebc88e03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:09 +0000
Subject: [PATCH 38/53] fix: Spark fill puts values at infinity in the overflow
 bin, not in the underflow

---
 histbook/calc/spark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/calc/spark.py b/histbook/calc/spark.py
index 2cf684e..0350d76 100644
--- a/histbook/calc/spark.py
+++ b/histbook/calc/spark.py
@@ -208,7 +208,7 @@ def fillspark(hist, df):
         elif isinstance(axis, histbook.axis.bin):
             scaled = (exprcol - float(axis.low)) * (int(axis.numbins) / (float(axis.high) - float(axis.low)) if axis.high > axis.low else 1.0)
             if axis.closedlow:
-                discretized = fcns.floor(scaled) + 1
+                discretized = fcns.floor(fcns.least(fcns.lit(float(axis.numbins)), scaled)) + 1    # adding to the largest integer would wrap around
             else:
                 discretized = fcns.ceil(scaled)
             indexes.append(fcns.when(fcns.isnull(exprcol) | fcns.isnan(exprcol), int(axis.numbins) + 2).otherwise(fcns.greatest(fcns.lit(0), fcns.least(fcns.lit(int(axis.numbins) + 1), discretized))))
-- 
2.43.0


From 3684a510b557a1fb130001b3cd3c4182f3a5af26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:09 +0000
Subject: [PATCH 39/53] fix: Spark fill counts NaN weights as zero, as the
 array fill does

---
 histbook/calc/spark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/calc/spark.py b/histbook/calc/spark.py
index 0350d76..b2de819 100644
--- a/histbook/calc/spark.py
+++ b/histbook/calc/spark.py
@@ -242,7 +242,7 @@ def fillspark(hist, df):
 
     selectcols = [index]
     if hist._weightparsed is not None:
-        weightcol = tocolumns(df, histbook.instr.totree(hist._weightparsed))
+        weightcol = fcns.nanvl(tocolumns(df, histbook.instr.totree(hist._weightparsed)), fcns.lit(0.0))    # NaN weights count as zero
     for axis in hist._profile:
         exprcol = tocolumns(df, histbook.instr.totree(axis._parsed))
         if hist._weightparsed is None:
-- 
2.43.0


From 692a97a9cf6e2c6e8d4813c1a00e6e1d61106acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:53 +0000
Subject: [PATCH 40/53] fix: Spark fill of groupbin with NaN and infinite
 values

---
 histbook/calc/spark.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/histbook/calc/spark.py b/histbook/calc/spark.py
index b2de819..b691070 100644
--- a/histbook/calc/spark.py
+++ b/histbook/calc/spark.py
@@ -203,7 +203,9 @@ def fillspark(hist, df):
                 discretized = fcns.floor(scaled)
             else:
                 discretized = fcns.ceil(scaled) - 1
-            indexes.append(fcns.nanvl(discretized * float(axis.binwidth) + float(axis.origin), fcns.lit("NaN")))
+            # infinities and other values beyond the range of integers are edges themselves; NaN is returned as null
+            discretized = fcns.when(fcns.abs(scaled) < 2.0**63, discretized).otherwise(scaled)
+            indexes.append(fcns.when(~fcns.isnan(exprcol), discretized * float(axis.binwidth) + float(axis.origin)))
 
         elif isinstance(axis, histbook.axis.bin):
             scaled = (exprcol - float(axis.low)) * (int(axis.numbins) / (float(axis.high) - float(axis.low)) if axis.high > axis.low else 1.0)
@@ -276,10 +278,12 @@ def fillspark(hist, df):
             content += columns
 
         elif isinstance(axis[0], (histbook.axis.groupby, histbook.axis.groupbin)):
-            content[index[0]] = recurse(index[1:], columns, axis[1:], getornew(content, index[0], axis[1] if len(axis) > 1 else None))
-            if isinstance(axis[0], histbook.axis.groupbin) and None in content:
-                content["NaN"] = content[None]
-                del content[None]
+            key = index[0]
+            if isinstance(axis[0], histbook.axis.groupbin) and key is None:
+                if not axis[0].nanflow:
+                    return content
+                key = "NaN"
+            content[key] = recurse(index[1:], columns, axis[1:], getornew(content, key, axis[1] if len(axis) > 1 else None))
 
         elif isinstance(axis[0], (histbook.axis.bin, histbook.axis.intbin, histbook.axis.split)):
             # Spark index is 0 for underflow, 1 to numbins for the finite bins, then overflow, then nanflow
-- 
2.43.0


From 73f58245e045113edd29f3db2940c113004944cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:05 +0000
Subject: [PATCH 41/53] fix: constants in an axis or weight are not reported as
 fields

---
 histbook/fill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/fill.py b/histbook/fill.py
index 1368ab9..7c60e40 100644
--- a/histbook/fill.py
+++ b/histbook/fill.py
@@ -54,7 +54,7 @@ class Fillable(object):
             fields = histbook.instr.sources(goals, table)
 
             self._instructions = self._streamline(0, list(histbook.instr.instructions(fields, goals)))
-            self._fields = sorted(set(x.goal.value for x in fields))    # a field can be used both as a number and as a predicate
+            self._fields = sorted(set(x.goal.value for x in fields if not isinstance(x.goal, histbook.expr.BroadcastConst)))    # a field can be used both as a number and as a predicate
 
         return self._fields
 
-- 
2.43.0


From ffa660599ac790034ff4133f5ce403eaf0ff66b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:05 +0000
Subject: [PATCH 42/53] fix: powers, remainders and floor divisions of
 constants can be parsed

---
 histbook/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 7197b7c..9061e4c 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -246,7 +246,7 @@ class Expr(object):
                 right = recurse(node.right)
 
                 if isinstance(left, Const) and isinstance(right, Const):
-                    return Const(calculate[fcn](left.value, right.value))
+                    return Const(calculate[fcn if fcn in calculate else op](left.value, right.value))
 
                 if fcn == "+":
                     return PlusMinus.combine(left, right).simplify()
-- 
2.43.0


From 2d4c1bd043966eb0c0404b541c0b7774e14e11b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:26 +0000
Subject: [PATCH 43/53] fix: selecting a range of a groupbin axis that has seen
 NaN

---
 histbook/axis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index a8f52ac..9432192 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -499,13 +499,13 @@ class groupbin(GroupAxis, _RebinFactor):
             close = round((value - float(self._origin)) / float(self._binwidth)) * float(self._binwidth) + float(self._origin)
             if abs(value - close) < tolerance:
                 if self._closedlow and cmp == "<":
-                    return self, lambda x: x < close, close, False
+                    return self, lambda x: x != "NaN" and x < close, close, False
                 elif self._closedlow and cmp == ">=":
-                    return self, lambda x: x >= close, close, False
+                    return self, lambda x: x != "NaN" and x >= close, close, False
                 elif not self._closedlow and cmp == ">":
-                    return self, lambda x: x >= close, close, False
+                    return self, lambda x: x != "NaN" and x >= close, close, False
                 elif not self._closedlow and cmp == "<=":
-                    return self, lambda x: x < close, close, False
+                    return self, lambda x: x != "NaN" and x < close, close, False
                 else:
                     return None, None, close, True
             else:
-- 
2.43.0


From fe2b63e428252a6680e8a1ed7662c4222a0ea403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:26 +0000
Subject: [PATCH 44/53] fix: selecting up to infinity on an intbin axis

---
 histbook/axis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 9432192..a15873d 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -918,28 +918,28 @@ class intbin(FixedAxis, _RebinFactor, _RebinSplit):
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif value == float("-inf") and cmp == ">":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif value == float("inf") and cmp == "<=":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif value == float("inf") and cmp == "<":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)):
             if value + tolerance < self._min:
-- 
2.43.0


From d713af2786d7bde309bbd52ff9128068ce2055c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:26 +0000
Subject: [PATCH 45/53] fix: selecting x == nan keeps an axis with the NaN bin
 only

---
 histbook/axis.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index a15873d..5e9c91a 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -715,7 +715,10 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isnan(value) and cmp == "==":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
-            out._nanflow = False
+            out._numbins = 0
+            out._high = out._low
+            out._underflow = False
+            out._overflow = False
             out._checktot()
             return out, slice(self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0), self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0) + 1), None, False
 
@@ -1236,7 +1239,9 @@ class split(FixedAxis, _RebinFactor, _RebinSplit):
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isnan(value) and cmp == "==":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
-            out._nanflow = False
+            out._edges = self._edges[:1]
+            out._underflow = False
+            out._overflow = False
             out._checktot()
             return out, slice(len(self._edges) - 1 + (1 if self._underflow else 0) + (1 if self._overflow else 0), len(self._edges) - 1 + (1 if self._underflow else 0) + (1 if self._overflow else 0) + 1), None, False
 
-- 
2.43.0


From f2afc4bc552348342a614c8c6593a8999f7b7ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:26 +0000
Subject: [PATCH 46/53] fix: selecting alternatives of more than two conditions
 on a group axis

---
 histbook/proj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 894d0b3..9dd037b 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -409,7 +409,7 @@ class Projectable(object):
                             andslice = slice1
                         else:
                             slice2 = andslice
-                            andslice = lambda x: slice1(x) and slice2(x)
+                            andslice = lambda x, slice1=slice1, slice2=slice2: slice1(x) and slice2(x)
 
                     if not good:
                         break
@@ -418,7 +418,7 @@ class Projectable(object):
                     else:
                         slice1 = andslice
                         slice2 = orslice
-                        orslice = lambda x: slice1(x) or slice2(x)
+                        orslice = lambda x, slice1=slice1, slice2=slice2: slice1(x) or slice2(x)
 
                 if good:
                     return axis, axis, orslice, None, None, None
-- 
2.43.0


From 75c37fef3153e1d604f58bb3fbbe74ef379ef78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:09 +0000
Subject: [PATCH 47/53] fix: selecting above the high edge of a bin axis with
 rounded bin widths

---
 histbook/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 5e9c91a..912bcb4 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -725,7 +725,7 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)):
             scale = float(self._numbins) / float(self._high - self._low) if self._numbins > 0 else 1.0
             edgenum = int(round((value - float(self._low)) * scale))
-            close = min(self._numbins, max(0, edgenum)) / scale + float(self._low)
+            close = float(self._high) if 0 < self._numbins <= edgenum else max(0, min(self._numbins, edgenum)) / scale + float(self._low)
 
             if abs(value - close) < tolerance:
                 out = self.__class__.__new__(self.__class__)
-- 
2.43.0


From 3a8f12bf3e81b43e88474c95d552baef3f3c64ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:20 +0000
Subject: [PATCH 48/53] fix: selecting x < inf or x > -inf on a groupbin axis
 drops infinite values

---
 histbook/axis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 912bcb4..20a1c9a 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -475,7 +475,7 @@ class groupbin(GroupAxis, _RebinFactor):
             return self, lambda x: x != "NaN", None, False
 
         elif value == float("-inf") and cmp == ">":
-            return self, lambda x: x != "NaN", None, False
+            return self, lambda x: x != "NaN" and x != float("-inf"), None, False
 
         elif value == float("-inf") and cmp == "!=":
             return self, lambda x: x != "NaN", None, False
@@ -484,7 +484,7 @@ class groupbin(GroupAxis, _RebinFactor):
             return self, lambda x: x != "NaN", None, False
 
         elif value == float("inf") and cmp == "<":
-            return self, lambda x: x != "NaN", None, False
+            return self, lambda x: x != "NaN" and x != float("inf"), None, False
 
         elif value == float("inf") and cmp == "!=":
             return self, lambda x: x != "NaN", None, False
-- 
2.43.0


From 5a76f50163f7f0d9ac1d37a7d4275823f636250c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:52 +0000
Subject: [PATCH 49/53] fix: floor division and rounding, which expressions
 accept, can be computed

---
 histbook/calc/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 08905ad..adcdf66 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -39,6 +39,7 @@ library["numpy.add"] = numpy.add
 library["numpy.subtract"] = numpy.subtract
 library["numpy.multiply"] = numpy.multiply
 library["numpy.true_divide"] = numpy.true_divide
+library["numpy.floor_divide"] = numpy.floor_divide
 library["numpy.equal"] = numpy.equal
 library["numpy.not_equal"] = numpy.not_equal
 library["numpy.less"] = numpy.less
@@ -98,6 +99,7 @@ library["pow"] = numpy.power
 library["rad2deg"] = numpy.rad2deg
 library["mod"] = numpy.remainder;         library["fmod"] = numpy.remainder
 library["rint"] = numpy.rint
+library["round"] = numpy.round
 library["sign"] = numpy.sign
 library["sinh"] = numpy.sinh
 library["sin"] = numpy.sin
-- 
2.43.0


From a96506cb90083834d896ac8b1dcd173573b794db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:11 +0000
Subject: [PATCH 50/53] fix: keys and items of a groupbin axis with NaN entries
 fail

---
 histbook/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 20a1c9a..efd0bac 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -521,7 +521,7 @@ class groupbin(GroupAxis, _RebinFactor):
         """Returns (key, value) pairs of the content."""
         if not isinstance(content, dict):
             raise TypeError("groupbin content must be a dict")
-        return [IntervalPair((Interval(n, n + float(self._binwidth), closedlow=self._closedlow, closedhigh=(not self._closedlow)), content[n])) for n in sorted(content)]
+        return [IntervalPair((IntervalNaN() if n == "NaN" else Interval(n, n + float(self._binwidth), closedlow=self._closedlow, closedhigh=(not self._closedlow)), content[n])) for n in sorted(content, key=lambda n: (n == "NaN", n))]
 
 class bin(FixedAxis, _RebinFactor, _RebinSplit):
     """
-- 
2.43.0


From 751dc23d6b0321a24bc6ad224f394a82f024b26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:04 +0000
Subject: [PATCH 51/53] fix: comparisons of text columns fail in array fills

---
 histbook/calc/__init__.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index adcdf66..ca4c420 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -28,6 +28,8 @@
 # OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
 # OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+import operator
+
 import histbook.expr
 
 import numpy
@@ -40,10 +42,17 @@ library["numpy.subtract"] = numpy.subtract
 library["numpy.multiply"] = numpy.multiply
 library["numpy.true_divide"] = numpy.true_divide
 library["numpy.floor_divide"] = numpy.floor_divide
-library["numpy.equal"] = numpy.equal
-library["numpy.not_equal"] = numpy.not_equal
-library["numpy.less"] = numpy.less
-library["numpy.less_equal"] = numpy.less_equal
+def comparison(ufunc, operation):
+    def compare(left, right):
+        if numpy.asarray(left).dtype.kind in "SU" and numpy.asarray(right).dtype.kind in "SU":
+            return operation(left, right)      # Numpy's functions do not compare strings, its operators do
+        else:
+            return ufunc(left, right)
+    return compare
+library["numpy.equal"] = comparison(numpy.equal, operator.eq)
+library["numpy.not_equal"] = comparison(numpy.not_equal, operator.ne)
+library["numpy.less"] = comparison(numpy.less, operator.lt)
+library["numpy.less_equal"] = comparison(numpy.less_equal, operator.le)
 def isin(values, candidates):
     if isinstance(candidates, (set, frozenset)):
         candidates = list(candidates)      # Numpy takes a set to be a single object
-- 
2.43.0


From 6862b33d0754e8a80bbb7fe0f36e33120cfbec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:21 +0000
Subject: [PATCH 52/53] fix: a numpy number times a book multiplies the book's
 names

---
 histbook/book.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/histbook/book.py b/histbook/book.py
index 02b1076..316a416 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -57,6 +57,8 @@ class GenericBook(collections.MutableMapping):
     Behaves like a dict (item assignment, ``keys``, ``values``).
     """
 
+    __array_ufunc__ = None    # numpy scalars must not take a book for a sequence of names in scalar * book
+
     def __init__(self, hists1={}, *hists2, **hists3):
         u"""
         Positional arguments may be a dict of str \u2192 :py:class:`Hist <histbook.hist.Hist>` or :py:class:`GenericBook <histbook.book.GenericBook>`.
-- 
2.43.0


From f6d76f8cfc534f9fa02ff6d3921167a01b3d4252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:09 +0000
Subject: [PATCH 53/53] fix: two threads that look at the same book or
 histogram for the first time corrupt its plan

---
 histbook/book.py |  5 +++--
 histbook/fill.py | 15 ++++++++++-----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 316a416..6a22588 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -570,10 +570,11 @@ class Book(GenericBook, histbook.fill.Fillable):
         return functools.reduce(set.union, (x._goals for x in self._hists()), set())
 
     def _streamline(self, i, instructions):
-        self._destination = []
+        destination = []
         for i, x in enumerate(self._hists()):
-            self._destination.append(x._destination[0])
+            destination.append(x._destination[0])
             x._streamline(i, instructions)
+        self._destination = destination
         return instructions
 
     def fill(self, arrays=None, **more):
diff --git a/histbook/fill.py b/histbook/fill.py
index 7c60e40..3eaa53d 100644
--- a/histbook/fill.py
+++ b/histbook/fill.py
@@ -28,6 +28,8 @@
 # OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
 # OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+import copy
+
 import numpy
 
 import histbook.calc
@@ -42,9 +44,10 @@ class Fillable(object):
     def fields(self):
         """Names of fields that must be provided in the ``fill`` method."""
 
-        if self._fields is None:
+        out = self._fields
+        if out is None:
             table = {}
-            goals = set(self._goals)
+            goals = set(copy.copy(x) for x in self._goals)    # nodes of its own: other threads may be asking for the fields, too
 
             for x in goals:
                 x.clear()
@@ -52,11 +55,13 @@ class Fillable(object):
                 x.grow(table)
             
             fields = histbook.instr.sources(goals, table)
+            out = sorted(set(x.goal.value for x in fields if not isinstance(x.goal, histbook.expr.BroadcastConst)))    # a field can be used both as a number and as a predicate
 
+            self._graph = goals
             self._instructions = self._streamline(0, list(histbook.instr.instructions(fields, goals)))
-            self._fields = sorted(set(x.goal.value for x in fields if not isinstance(x.goal, histbook.expr.BroadcastConst)))    # a field can be used both as a number and as a predicate
+            self._fields = out
 
-        return self._fields
+        return out
 
     def _showgoals(self):
         self.fields  # for the side-effect of creating self._instructions
@@ -69,7 +74,7 @@ class Fillable(object):
             if node not in numbers:
                 number = numbers[node] = len(numbers)
                 order.append(node)
-        for goal in sorted(self._goals):
+        for goal in sorted(self._graph):
             recurse(goal)
         print("goals:")
         print("------")
-- 
2.43.0

