From 7319e08345b4fbb57bc4ebb47295c8f3db6f446b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 01/44] fix: AMF3 XML documents must not use the string
 reference table

The decoder does not add XML to its string table, so every string reference
after an XML document was off by one and an equal second document was written
as a reference to something else.
---
 pyamf/amf3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index d2413f9..a994d29 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1548,7 +1548,11 @@ class Encoder(codec.Encoder):
 
         self.context.addObject(n)
 
-        self.serialiseString(xml.tostring(n).encode('utf-8'))
+        # XML is never part of the string reference table
+        data = xml.tostring(n).encode('utf-8')
+
+        self._writeInteger((len(data) << 1) | REFERENCE_BIT)
+        self.stream.write(data)
 
 
 def encode_int(n):
-- 
2.43.0


From e9691d3d4a478fc4e183f310d76169fb8f5706fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 02/44] fix: count AMF0 dates and XML documents as references
 when encoding

The decoder counts them, so a reference written after one was resolved to the
wrong object.
---
 pyamf/amf0.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index d1019b9..6a7c071 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -641,6 +641,8 @@ class Encoder(codec.Encoder):
 
         # According to the Red5 implementation of AMF0, dates references are
         # created, but not used.
+        self.context.addObject(d)
+
         if self.timezone_offset is not None:
             d -= self.timezone_offset
 
@@ -655,6 +657,9 @@ class Encoder(codec.Encoder):
         """
         Writes an XML instance.
         """
+        # as with dates, a reference is created but never used
+        self.context.addObject(e)
+
         self.writeType(TYPE_XML)
 
         data = xml.tostring(e)
-- 
2.43.0


From dc4ceae365693130b7a9cdeff1d39c3687a818a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 03/44] fix: objects switched to AMF3 do not take up an AMF0
 object reference

The decoder keeps AMF3 objects in the table of the nested AMF3 context only.
---
 pyamf/amf0.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 6a7c071..1f41555 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -595,16 +595,18 @@ class Encoder(codec.Encoder):
         if self.writeReference(o) != -1:
             return
 
-        self.context.addObject(o)
         alias = self.context.getClassAlias(o.__class__)
 
         alias.compile()
 
         if alias.amf3:
+            # AMF3 has its own table of references
             self.writeAMF3(o)
 
             return
 
+        self.context.addObject(o)
+
         if alias.anonymous:
             self.writeType(TYPE_OBJECT)
         else:
-- 
2.43.0


From 4c0564869dc282b7154032cec4942e9a0558a253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 04/44] fix: decoding an incomplete element must leave the
 decoder untouched

Objects, strings and class definitions read before the data ran out stayed in
the reference tables, so later references resolved to the wrong thing, and an
element that ended right before a nested type byte was silently dropped.
---
 pyamf/amf0.py  | 27 ++++++++++++++++++++++++++
 pyamf/amf3.py  | 29 ++++++++++++++++++++++++++++
 pyamf/codec.py | 51 ++++++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 107 insertions(+)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 1f41555..67e8008 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -107,6 +107,33 @@ class Context(codec.Context):
         if decoder:
             decoder.context.clear()
 
+    def checkpoint(self):
+        """
+        @see: L{codec.Context.checkpoint}
+        """
+        nested = []
+
+        for key in ('amf3_encoder', 'amf3_decoder'):
+            amf3_codec = self.extra.get(key, None)
+
+            if amf3_codec:
+                context = amf3_codec.context
+
+                nested.append((context, context.checkpoint()))
+
+        return codec.Context.checkpoint(self), nested
+
+    def rollback(self, marker):
+        """
+        @see: L{codec.Context.rollback}
+        """
+        base, nested = marker
+
+        codec.Context.rollback(self, base)
+
+        for context, nested_marker in nested:
+            context.rollback(nested_marker)
+
     def getAMF3Encoder(self, amf0_encoder):
         encoder = self.extra.get('amf3_encoder', None)
 
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index a994d29..36cd8f4 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -629,6 +629,35 @@ class Context(codec.Context):
 
         self.class_idx = 0
 
+    def checkpoint(self):
+        """
+        @see: L{codec.Context.checkpoint}
+        """
+        return (
+            codec.Context.checkpoint(self),
+            len(self.strings),
+            self.class_idx,
+            self.proxied_objects.copy()
+        )
+
+    def rollback(self, marker):
+        """
+        @see: L{codec.Context.rollback}
+        """
+        base, strings, class_idx, proxied_objects = marker
+
+        codec.Context.rollback(self, base)
+
+        self.strings.truncate(strings)
+        self.proxied_objects = proxied_objects
+
+        if class_idx != self.class_idx:
+            defs = [self.class_ref[i] for i in xrange(class_idx)]
+
+            self.classes = dict([(d.alias.klass, d) for d in defs])
+            self.class_ref = dict(enumerate(defs))
+            self.class_idx = class_idx
+
     def getString(self, ref):
         """
         Gets a string based on a reference C{ref}.
diff --git a/pyamf/codec.py b/pyamf/codec.py
index d7b87f2..9bb1df9 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -92,6 +92,20 @@ class IndexedCollection(object):
 
         return idx
 
+    def truncate(self, size):
+        """
+        Forgets everything that was added after the first C{size} objects.
+        """
+        if size >= len(self.list):
+            return
+
+        objs = self.list[:size]
+
+        self.clear()
+
+        for obj in objs:
+            self.append(obj)
+
     def __eq__(self, other):
         if isinstance(other, list):
             return self.list == other
@@ -183,6 +197,26 @@ class Context(object):
         self._unicodes = {}
         self.extra = {}
 
+    def checkpoint(self):
+        """
+        Returns an opaque marker of everything that has been referenced so far.
+
+        @see: L{rollback}
+        """
+        return len(self._objects), self.extra.copy()
+
+    def rollback(self, marker):
+        """
+        Forgets everything that has been referenced since C{marker} was taken.
+
+        @see: L{checkpoint}
+        """
+        objects, extra = marker
+
+        self._objects.truncate(objects)
+        self.extra.clear()
+        self.extra.update(extra)
+
     def getObject(self, ref):
         """
         Gets an object based on a reference.
@@ -397,18 +431,35 @@ class Decoder(_Codec):
             self.stream.seek(pos)
 
             raise
+        except pyamf.EOStream:
+            # the data ran out in the middle of this element
+            self.stream.seek(pos)
+
+            raise IOError('Attempted to read past the end of the buffer')
 
     def readElement(self):
         """
         Reads an AMF3 element from the data stream.
 
+        If only part of the element is available then C{IOError} is raised and
+        it is as if the element had not been attempted - C{readElement} can be
+        called again once there is more data.
+
         @raise DecodeError: The ActionScript type is unsupported.
         @raise EOStream: No more data left to decode.
         """
+        if self.__depth == 0:
+            marker = self.context.checkpoint()
+
         self.__depth += 1
 
         try:
             element = self._readElement()
+        except IOError:
+            if self.__depth == 1:
+                self.context.rollback(marker)
+
+            raise
         finally:
             self.__depth -= 1
 
-- 
2.43.0


From 8b2525ef3b057426524d018b79bb60d0f90334a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:39 +0000
Subject: [PATCH 05/44] fix: a value that cannot be encoded must not leave
 anything behind

Half of the value stayed in the stream and in the reference tables, so
whatever was encoded next referred to objects the peer never received.
---
 pyamf/codec.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index 9bb1df9..3ded976 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -504,6 +504,7 @@ class Encoder(_Codec):
         _Codec.__init__(self, *args, **kwargs)
 
         self.bucket = []
+        self.__nested = False
 
     def _write_type(self, obj, **kwargs):
         """
@@ -616,7 +617,14 @@ class Encoder(_Codec):
         """
         Encodes C{data} to AMF. If the data is not able to be matched to an AMF
         type, then L{pyamf.EncodeError} will be raised.
+
+        If anything goes wrong then nothing of C{data} is left in the stream.
         """
+        if not self.__nested:
+            self._writeRootElement(data)
+
+            return
+
         key = type(data)
         func = None
 
@@ -633,6 +641,30 @@ class Encoder(_Codec):
 
         func(data)
 
+    def _writeRootElement(self, data):
+        """
+        Encodes C{data} or, in case of an error, restores the stream and the
+        context to what they were.
+        """
+        pos = self.stream.tell()
+        length = len(self.stream)
+        marker = self.context.checkpoint()
+        complete = False
+
+        self.__nested = True
+
+        try:
+            self.writeElement(data)
+
+            complete = True
+        finally:
+            self.__nested = False
+
+            if not complete:
+                self.stream.seek(pos)
+                self.stream.truncate(length)
+                self.context.rollback(marker)
+
     def send(self, element):
         self.bucket.append(element)
 
-- 
2.43.0


From 69d3e071708666c28de9508a220ebcae6e6de88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:38 +0000
Subject: [PATCH 06/44] fix: compile a class alias in one thread at a time

---
 pyamf/alias.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 1ef3af3..a400bd2 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -8,10 +8,15 @@ Class alias base functionality.
 """
 
 import inspect
+import threading
 
 import pyamf
 from pyamf import python, util
 
+#: Held while an alias is being compiled. Aliases are shared by all threads
+#: and compiling one compiles those of its base classes.
+_compile_lock = threading.RLock()
+
 
 class UnknownClassAlias(Exception):
     """
@@ -98,6 +103,12 @@ class ClassAlias(object):
         if self._compiled:
             return
 
+        with _compile_lock:
+            # another thread may have been faster
+            if not self._compiled:
+                self._compile()
+
+    def _compile(self):
         self.decodable_properties = set()
         self.encodable_properties = set()
         self.inherited_dynamic = None
-- 
2.43.0


From 1a21298f15d7b2994cf5ffdb441b0dba6ac828f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:41 +0000
Subject: [PATCH 07/44] fix: reading a 24 bit integer past the end must not
 consume bytes

---
 pyamf/util/pure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/util/pure.py b/pyamf/util/pure.py
index 07161a5..ef6d753 100644
--- a/pyamf/util/pure.py
+++ b/pyamf/util/pure.py
@@ -371,8 +371,8 @@ class DataTypeMixIn(object):
 
         n = 0
 
-        for x in order:
-            n += (self.read_uchar() << x)
+        for x, byte in zip(order, self._read(3)):
+            n += (ord(byte) << x)
 
         return n
 
-- 
2.43.0


From 2ed1ba1739b7ce62411de6ccb719b4427031975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:14 +0000
Subject: [PATCH 08/44] fix: a failing import must not disable the import hooks
 of other modules

---
 pyamf/util/imports.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pyamf/util/imports.py b/pyamf/util/imports.py
index 99b8471..d4f313a 100644
--- a/pyamf/util/imports.py
+++ b/pyamf/util/imports.py
@@ -39,7 +39,7 @@ class ModuleFinder(object):
 
     @ivar post_load_hooks: C{dict} of C{full module path -> callable} to be
         executed when the module is imported.
-    @ivar loaded_modules: C{list} of modules that this finder has seen. Used
+    @ivar loaded_modules: C{list} of modules that this finder is loading. Used
         to stop recursive imports in L{load_module}
     @see: L{when_imported}
     @since: 0.5
@@ -81,13 +81,12 @@ class ModuleFinder(object):
 
         try:
             __import__(name, {}, {}, [])
+        finally:
+            # other modules may have been loaded in the meantime
+            self.loaded_modules.remove(name)
 
-            mod = sys.modules[name]
-            self._run_hooks(name, mod)
-        except:
-            self.loaded_modules.pop()
-
-            raise
+        mod = sys.modules[name]
+        self._run_hooks(name, mod)
 
         return mod
 
-- 
2.43.0


From 928d75820ca1512cc0f663c7d9cd86664d1d238b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:33 +0000
Subject: [PATCH 09/44] fix: compare the module name by value in get_module

---
 pyamf/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/util/__init__.py b/pyamf/util/__init__.py
index 035e4aa..5bb4105 100644
--- a/pyamf/util/__init__.py
+++ b/pyamf/util/__init__.py
@@ -198,7 +198,7 @@ def get_module(mod_name):
     """
     Load and return a module based on C{mod_name}.
     """
-    if mod_name is '':
+    if mod_name == '':
         raise ImportError('Unable to import empty module')
 
     mod = __import__(mod_name)
-- 
2.43.0


From c62770266ccb09dd807be6c9692c8d71c104c996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:17 +0000
Subject: [PATCH 10/44] fix: accept unicode class names that are not ASCII

---
 pyamf/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index a400bd2..e8de9a3 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -42,7 +42,7 @@ class ClassAlias(object):
         self.klass = klass
         self.alias = alias
 
-        if hasattr(self.alias, 'decode'):
+        if isinstance(self.alias, str):
             self.alias = self.alias.decode('utf-8')
 
         self.static_attrs = kwargs.pop('static_attrs', None)
-- 
2.43.0


From 08babd994e88c1c1dfcd84572ee99f5badd44fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:31 +0000
Subject: [PATCH 11/44] fix: a class missing from an importable module is an
 unknown alias

---
 pyamf/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index b71ae91..1a26bb0 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -406,12 +406,10 @@ def load_class(alias):
         klass = mod_class[-1]
 
         try:
-            module = util.get_module(module)
+            klass = getattr(util.get_module(module), klass)
         except (ImportError, AttributeError):
             pass
         else:
-            klass = getattr(module, klass)
-
             if isinstance(klass, python.class_types):
                 return register_class(klass, alias)
             elif isinstance(klass, ClassAlias):
-- 
2.43.0


From b8c44c18c1b59bf62d0cdf25c1421545652c41a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 12/44] fix: a ClassAlias found by importing is returned, not
 its class

---
 pyamf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 1a26bb0..ba01471 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -416,7 +416,7 @@ def load_class(alias):
                 CLASS_CACHE[klass.alias] = klass
                 CLASS_CACHE[klass.klass] = klass
 
-                return klass.klass
+                return klass
             else:
                 raise TypeError(
                     "Expecting class type or ClassAlias from loader"
-- 
2.43.0


From 42637ddb02e69884469d31d359544d5bbb11f09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 13/44] fix: class names that are not ASCII are looked up
 decoded in AMF3 too

---
 pyamf/amf3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 36cd8f4..04cf18a 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -997,7 +997,7 @@ class Decoder(codec.Decoder):
 
             return class_def
 
-        name = self.readBytes()
+        name = self.readString()
         alias = None
 
         if name == '':
-- 
2.43.0


From 84c771a983af0ef9e8fc7ca8c555f7eb63bf7357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 14/44] fix: unregistering a class leaves later registrations
 alone

---
 pyamf/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index ba01471..42d0d6f 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -284,10 +284,10 @@ def unregister_class(alias):
     except KeyError:
         raise UnknownClassAlias('Unknown alias %r' % (alias,))
 
-    if not x.anonymous:
-        del CLASS_CACHE[x.alias]
-
-    del CLASS_CACHE[x.klass]
+    # the name or the class may have been registered again since
+    for key in (x.alias, x.klass):
+        if CLASS_CACHE.get(key) is x:
+            del CLASS_CACHE[key]
 
     return x
 
-- 
2.43.0


From 24789f5defd13fa67f32b3424d58e7ef80ebb6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:58 +0000
Subject: [PATCH 15/44] fix: cache encoded integers under the value that was
 asked for

---
 pyamf/amf3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 04cf18a..2734219 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1604,6 +1604,8 @@ def encode_int(n):
     if n < MIN_29B_INT or n > MAX_29B_INT:
         raise OverflowError("Out of range")
 
+    key = n
+
     if n < 0:
         n += 0x20000000
 
@@ -1629,7 +1631,7 @@ def encode_int(n):
     else:
         bytes += chr(n & 0x7f)
 
-    ENCODED_INT_CACHE[n] = bytes
+    ENCODED_INT_CACHE[key] = bytes
 
     return bytes
 
-- 
2.43.0


From bea1b7a87b66f20f885f73a37c2274edc76c5095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:35 +0000
Subject: [PATCH 16/44] fix: custom types declared by a callable apply to each
 value

---
 pyamf/codec.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index 3ded976..17552d7 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -637,10 +637,27 @@ class Encoder(_Codec):
                 raise pyamf.EncodeError('Unable to encode %r (type %r)' % (
                     data, key))
 
-            self._func_cache[key] = func
+            if self._dependsOnTypeOnly(func):
+                self._func_cache[key] = func
 
         func(data)
 
+    def _dependsOnTypeOnly(self, func):
+        """
+        Whether C{func} will encode all values of the type it was looked up
+        for. Custom types that are declared with a callable can tell values of
+        one type apart.
+        """
+        if not isinstance(func, _CustomTypeFunc) and \
+                func not in (self.writeObject, self.writeSequence):
+            return True
+
+        for type_ in pyamf.TYPE_MAP:
+            if not isinstance(type_, python.class_types + (tuple,)):
+                return False
+
+        return True
+
     def _writeRootElement(self, data):
         """
         Encodes C{data} or, in case of an error, restores the stream and the
-- 
2.43.0


From dc403f6332cf56537aa00a53278bd9e0a5aa214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:02 +0000
Subject: [PATCH 17/44] fix: encode a shared object before touching its file,
 close files on errors

---
 pyamf/sol.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/pyamf/sol.py b/pyamf/sol.py
index 6d0c788..6fb667a 100644
--- a/pyamf/sol.py
+++ b/pyamf/sol.py
@@ -150,15 +150,18 @@ def load(name_or_file):
     elif not hasattr(f, 'read'):
         raise ValueError('Readable stream expected')
 
-    name, values = decode(f.read())
+    try:
+        data = f.read()
+    finally:
+        if opened is True:
+            f.close()
+
+    name, values = decode(data)
     s = SOL(name)
 
     for n, v in values.iteritems():
         s[n] = v
 
-    if opened is True:
-        f.close()
-
     return s
 
 
@@ -172,16 +175,21 @@ def save(sol, name_or_file, encoding=pyamf.AMF0):
     f = name_or_file
     opened = False
 
+    if not isinstance(name_or_file, basestring) and not hasattr(f, 'write'):
+        raise ValueError('Writable stream expected')
+
+    # an existing file must survive if this fails
+    data = encode(sol.name, sol, encoding=encoding).getvalue()
+
     if isinstance(name_or_file, basestring):
         f = open(name_or_file, 'wb+')
         opened = True
-    elif not hasattr(f, 'write'):
-        raise ValueError('Writable stream expected')
-
-    f.write(encode(sol.name, sol, encoding=encoding).getvalue())
 
-    if opened:
-        f.close()
+    try:
+        f.write(data)
+    finally:
+        if opened:
+            f.close()
 
 
 class SOL(dict):
-- 
2.43.0


From aad4f1e0f7f003a7b8249d3be920ff9ffb3209e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:49 +0000
Subject: [PATCH 18/44] fix: truncating a stream to more than it holds leaves
 it alone

---
 pyamf/util/pure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyamf/util/pure.py b/pyamf/util/pure.py
index ef6d753..ff951ab 100644
--- a/pyamf/util/pure.py
+++ b/pyamf/util/pure.py
@@ -107,6 +107,10 @@ class StringIOProxy(object):
 
             return
 
+        if size >= len(self):
+            # there is nothing to cut off
+            return
+
         cur_pos = self.tell()
         self.seek(0)
         buf = self.read(size)
-- 
2.43.0


From d1ed07277babc044df82ba748b4b89a2ccf38681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:31 +0000
Subject: [PATCH 19/44] fix: refusing to append leaves the stream where it was

---
 pyamf/util/pure.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyamf/util/pure.py b/pyamf/util/pure.py
index ff951ab..5ae508b 100644
--- a/pyamf/util/pure.py
+++ b/pyamf/util/pure.py
@@ -611,12 +611,13 @@ class BufferedByteStream(StringIOProxy, DataTypeMixIn):
         # seek to the end of the stream
         self.seek(0, 2)
 
-        if hasattr(data, 'getvalue'):
-            self.write_utf8_string(data.getvalue())
-        else:
-            self.write_utf8_string(data)
-
-        self.seek(t)
+        try:
+            if hasattr(data, 'getvalue'):
+                self.write_utf8_string(data.getvalue())
+            else:
+                self.write_utf8_string(data)
+        finally:
+            self.seek(t)
 
     def __add__(self, other):
         old_pos = self.tell()
-- 
2.43.0


From 645922a8a7fafd6e15e76bfc89e7eada7ab4ac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:40 +0000
Subject: [PATCH 20/44] fix: reading a string that is not complete yet must not
 consume its length

---
 pyamf/amf3.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 2734219..1f1e789 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -474,8 +474,16 @@ class DataInput(object):
         @return: A UTF-8 string produced by the byte
         representation of characters.
         """
+        pos = self.stream.tell()
         length = self.stream.read_ushort()
-        return self.stream.read_utf8_string(length)
+
+        try:
+            return self.stream.read_utf8_string(length)
+        except IOError:
+            # the length is of no use without the string
+            self.stream.seek(pos)
+
+            raise
 
     def readUTFBytes(self, length):
         """
-- 
2.43.0


From a8c249624a09112dc05b883f3f0f1f7e1b72632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:56 +0000
Subject: [PATCH 21/44] fix: a value that cannot be encoded must not overwrite
 anything either

---
 pyamf/codec.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index 17552d7..19d1006 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -666,8 +666,13 @@ class Encoder(_Codec):
         pos = self.stream.tell()
         length = len(self.stream)
         marker = self.context.checkpoint()
+        overwritten = ''
         complete = False
 
+        if pos < length:
+            overwritten = self.stream.read()
+            self.stream.seek(pos)
+
         self.__nested = True
 
         try:
@@ -678,6 +683,8 @@ class Encoder(_Codec):
             self.__nested = False
 
             if not complete:
+                self.stream.seek(pos)
+                self.stream.write(overwritten)
                 self.stream.seek(pos)
                 self.stream.truncate(length)
                 self.context.rollback(marker)
-- 
2.43.0


From f4181211a7360919bdabadd5a7fc7da0161b425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 22/44] fix: a request that cannot be read must not raise into
 the WSGI server

---
 pyamf/remoting/gateway/wsgi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/gateway/wsgi.py b/pyamf/remoting/gateway/wsgi.py
index d5d7d6f..b476715 100644
--- a/pyamf/remoting/gateway/wsgi.py
+++ b/pyamf/remoting/gateway/wsgi.py
@@ -75,12 +75,13 @@ class WSGIGateway(gateway.BaseGateway):
         if environ['REQUEST_METHOD'] != 'POST':
             return self.badRequestMethod(environ, start_response)
 
-        body = environ['wsgi.input'].read(int(environ['CONTENT_LENGTH']))
+        stdin = environ['wsgi.input']
         stream = None
         timezone_offset = self._get_timezone_offset()
 
         # Decode the request
         try:
+            body = stdin.read(int(environ.get('CONTENT_LENGTH') or 0))
             request = remoting.decode(
                 body,
                 strict=self.strict,
-- 
2.43.0


From 60a33b5a3ba60488216ef757671bc49d9ab98544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 23/44] fix: a request that cannot be read must not raise into
 Django

---
 pyamf/remoting/gateway/django.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyamf/remoting/gateway/django.py b/pyamf/remoting/gateway/django.py
index 42e4788..4abf59f 100644
--- a/pyamf/remoting/gateway/django.py
+++ b/pyamf/remoting/gateway/django.py
@@ -95,13 +95,13 @@ class DjangoGateway(gateway.BaseGateway):
         stream = None
         timezone_offset = self._get_timezone_offset()
 
-        try:
-            body = http_request.body
-        except AttributeError:
-            body = http_request.raw_post_data
-
         # Decode the request
         try:
+            try:
+                body = http_request.body
+            except AttributeError:
+                body = http_request.raw_post_data
+
             request = remoting.decode(
                 body,
                 strict=self.strict,
-- 
2.43.0


From 1adfe0d278be5098b19d4eb5f18a75fabf676955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 24/44] fix: a request truncated between two elements is a bad
 request

---
 pyamf/remoting/gateway/django.py | 2 +-
 pyamf/remoting/gateway/google.py | 4 ++--
 pyamf/remoting/gateway/wsgi.py   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyamf/remoting/gateway/django.py b/pyamf/remoting/gateway/django.py
index 4abf59f..ae7c88a 100644
--- a/pyamf/remoting/gateway/django.py
+++ b/pyamf/remoting/gateway/django.py
@@ -108,7 +108,7 @@ class DjangoGateway(gateway.BaseGateway):
                 logger=self.logger,
                 timezone_offset=timezone_offset
             )
-        except (pyamf.DecodeError, IOError):
+        except (pyamf.DecodeError, pyamf.EOStream, IOError):
             if self.logger:
                 self.logger.exception('Error decoding AMF request')
 
diff --git a/pyamf/remoting/gateway/google.py b/pyamf/remoting/gateway/google.py
index b63c494..d926f16 100644
--- a/pyamf/remoting/gateway/google.py
+++ b/pyamf/remoting/gateway/google.py
@@ -15,7 +15,7 @@ applications to AMF clients and servers.
 import sys
 import os.path
 
-from pyamf import remoting, DecodeError
+from pyamf import remoting, DecodeError, EOStream
 from pyamf.remoting import gateway
 
 try:
@@ -81,7 +81,7 @@ class WebAppGateway(webapp.RequestHandler, gateway.BaseGateway):
                 logger=self.logger,
                 timezone_offset=timezone_offset
             )
-        except (DecodeError, IOError):
+        except (DecodeError, EOStream, IOError):
             if self.logger:
                 self.logger.exception('Error decoding AMF request')
 
diff --git a/pyamf/remoting/gateway/wsgi.py b/pyamf/remoting/gateway/wsgi.py
index b476715..515f89b 100644
--- a/pyamf/remoting/gateway/wsgi.py
+++ b/pyamf/remoting/gateway/wsgi.py
@@ -88,7 +88,7 @@ class WSGIGateway(gateway.BaseGateway):
                 logger=self.logger,
                 timezone_offset=timezone_offset
             )
-        except (pyamf.DecodeError, IOError):
+        except (pyamf.DecodeError, pyamf.EOStream, IOError):
             if self.logger:
                 self.logger.exception('Error decoding AMF request')
 
-- 
2.43.0


From 2cc34d62610acaa29253d6e8716141acb8c1bf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 25/44] fix: an error message that is not ASCII must not fail
 the whole exchange

---
 pyamf/__init__.py      |  2 +-
 pyamf/python.py        | 20 ++++++++++++++++++++
 pyamf/remoting/amf0.py |  9 ++++++---
 pyamf/remoting/amf3.py |  8 ++++----
 4 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 42d0d6f..edc920d 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -239,7 +239,7 @@ class ErrorAlias(ClassAlias):
     def getEncodableAttributes(self, obj, **kwargs):
         attrs = ClassAlias.getEncodableAttributes(self, obj, **kwargs)
 
-        attrs['message'] = unicode(obj)
+        attrs['message'] = python.safe_unicode(obj)
         attrs['name'] = obj.__class__.__name__
 
         return attrs
diff --git a/pyamf/python.py b/pyamf/python.py
index 198e526..77be21b 100644
--- a/pyamf/python.py
+++ b/pyamf/python.py
@@ -41,6 +41,26 @@ int_types = tuple(int_types)
 str_types = tuple(str_types)
 class_types = tuple(class_types)
 
+
+def safe_unicode(obj):
+    """
+    Text for C{obj}, usually an exception, whatever its message consists of.
+    """
+    try:
+        return unicode(obj)
+    except (KeyboardInterrupt, SystemExit):
+        raise
+    except:
+        pass
+
+    try:
+        return str(obj).decode('utf-8', 'replace')
+    except (KeyboardInterrupt, SystemExit):
+        raise
+    except:
+        return u'<unprintable %s object>' % (type(obj).__name__,)
+
+
 PosInf = 1e300000
 NegInf = -1e300000
 # we do this instead of float('nan') because windows throws a wobbler.
diff --git a/pyamf/remoting/amf0.py b/pyamf/remoting/amf0.py
index 8ccf49d..e3db99b 100644
--- a/pyamf/remoting/amf0.py
+++ b/pyamf/remoting/amf0.py
@@ -10,7 +10,7 @@ AMF0 Remoting support.
 import traceback
 import sys
 
-from pyamf import remoting
+from pyamf import python, remoting
 from pyamf.remoting import gateway
 
 
@@ -182,10 +182,13 @@ def build_fault(cls, e, tb, include_traceback=False):
     details = None
 
     if include_traceback:
-        details = traceback.format_exception(cls, e, tb)
+        details = [
+            python.safe_unicode(line)
+            for line in traceback.format_exception(cls, e, tb)
+        ]
 
     return remoting.ErrorFault(
         code=code,
-        description=unicode(e),
+        description=python.safe_unicode(e),
         details=details
     )
diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index ff26949..5fd14d8 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -71,19 +71,19 @@ def generate_error(request, cls, e, tb, include_traceback=False):
 
         traceback.print_exception(cls, e, tb, file=buffer)
 
-        details = buffer.getvalue()
+        details = pyamf.python.safe_unicode(buffer.getvalue())
 
     faultDetail = None
     faultString = None
 
     if hasattr(e, 'message'):
-        faultString = unicode(e.message)
+        faultString = pyamf.python.safe_unicode(e.message)
     elif hasattr(e, 'args') and e.args:
         if isinstance(e.args[0], pyamf.python.str_types):
-            faultString = unicode(e.args[0])
+            faultString = pyamf.python.safe_unicode(e.args[0])
 
     if details:
-        faultDetail = unicode(details)
+        faultDetail = details
 
     return messaging.ErrorMessage(
         messageId=generate_random_id(),
-- 
2.43.0


From 2a9b1c5d4e80e508e5c3db8d5ce2887bb3472267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 26/44] fix: a RemoteObject request without a message must only
 fail its own response

---
 pyamf/remoting/amf3.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index 5fd14d8..3ea25e4 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -89,7 +89,7 @@ def generate_error(request, cls, e, tb, include_traceback=False):
         messageId=generate_random_id(),
         clientId=generate_random_id(),
         timestamp=calendar.timegm(time.gmtime()),
-        correlationId=request.messageId,
+        correlationId=getattr(request, 'messageId', None),
         faultCode=code,
         faultString=faultString,
         faultDetail=faultDetail,
@@ -213,7 +213,7 @@ class RequestProcessor(object):
         @return: The response to the request.
         @rtype: L{Response<pyamf.remoting.Response>}
         """
-        ro_request = amf_request.body[0]
+        ro_request = get_message(amf_request)
 
         try:
             body = self._getBody(amf_request, ro_request, **kwargs)
@@ -234,7 +234,10 @@ class RequestProcessor(object):
 
         ro_response = body.body
 
-        dsid = ro_request.headers.get('DSId', None)
+        dsid = None
+
+        if hasattr(getattr(ro_request, 'headers', None), 'get'):
+            dsid = ro_request.headers.get('DSId', None)
 
         if not dsid or dsid == 'nil':
             dsid = generate_random_id()
@@ -244,11 +247,21 @@ class RequestProcessor(object):
         return body
 
 
+def get_message(amf_request):
+    """
+    Returns the RemoteObject message of a request, C{None} if it has none.
+    """
+    try:
+        return amf_request.body[0]
+    except (IndexError, KeyError, TypeError):
+        return None
+
+
 def get_service_name(ro_request):
     """
     Returns the full service name of a RemoteObject request.
     """
-    service_name = ro_request.operation
+    service_name = getattr(ro_request, 'operation', None)
 
     if hasattr(ro_request, 'destination') and ro_request.destination:
         service_name = '%s.%s' % (ro_request.destination, service_name)
-- 
2.43.0


From bfaa34e3e0f3a35bc7df4f1a5806530603f516d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 27/44] fix: an exception that cannot be encoded must not fail
 the whole exchange

---
 pyamf/remoting/amf3.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index 3ea25e4..b703986 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -66,6 +66,14 @@ def generate_error(request, cls, e, tb, include_traceback=False):
     details = None
     rootCause = e
 
+    try:
+        pyamf.encode(e, encoding=pyamf.AMF3)
+    except (KeyboardInterrupt, SystemExit):
+        raise
+    except:
+        # it would take the whole response envelope with it
+        rootCause = None
+
     if include_traceback:
         buffer = pyamf.util.BufferedByteStream()
 
-- 
2.43.0


From 32dbe1d83aa6ba105ac5bbe01990af28d26c8322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 28/44] fix: a RemoteObject message that fails must be answered
 by Twisted, too

---
 pyamf/remoting/gateway/twisted.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyamf/remoting/gateway/twisted.py b/pyamf/remoting/gateway/twisted.py
index 9771a64..b316e30 100644
--- a/pyamf/remoting/gateway/twisted.py
+++ b/pyamf/remoting/gateway/twisted.py
@@ -188,7 +188,7 @@ class AMF3RequestProcessor(amf3.RequestProcessor):
         @rtype: C{Deferred<twisted.internet.defer.Deferred>}
         """
         deferred_response = defer.Deferred()
-        ro_request = amf_request.body[0]
+        ro_request = amf3.get_message(amf_request)
 
         def cb(amf_response):
             deferred_response.callback(amf_response)
@@ -200,11 +200,13 @@ class AMF3RequestProcessor(amf3.RequestProcessor):
                 self.gateway.logger.error(errMesg)
                 self.gateway.logger.error(failure.getTraceback())
 
+            ro_response = self.buildErrorResponse(
+                ro_request,
+                (failure.type, failure.value, failure.tb)
+            )
+
             deferred_response.callback(
-                self.buildErrorResponse(
-                    ro_request,
-                    (failure.type, failure.value, failure.tb)
-                )
+                remoting.Response(ro_response, status=remoting.STATUS_ERROR)
             )
 
         d = defer.maybeDeferred(
-- 
2.43.0


From 4d8ae7e5b93ad8732039c75f42904b78ae93c41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 29/44] fix: a header name or request id that is not ASCII is
 as long as its bytes

The length that precedes them was the number of characters.
---
 pyamf/remoting/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index f683b58..2597312 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -411,6 +411,9 @@ def _write_header(name, header, required, stream, encoder, strict=False):
         the correct header length after writing the header.
     @type strict: C{boolean}
     """
+    if isinstance(name, unicode):
+        name = name.encode('utf-8')
+
     stream.write_ushort(len(name))
     stream.write_utf8_string(name)
 
@@ -542,6 +545,9 @@ def _write_body(name, message, stream, encoder, strict=False):
     if isinstance(message, Request):
         response = name
 
+        if isinstance(response, unicode):
+            response = response.encode('utf-8')
+
     stream.write_ushort(len(response))
     stream.write_utf8_string(response)
 
-- 
2.43.0


From 9d8004bbe5f01c9e49749d0d50dc7824e65dc94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 30/44] fix: the correlation id of a small message's answer
 must be a string

The UUID object was encoded attribute by attribute, no client could find the
request it belongs to.
---
 pyamf/remoting/amf3.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index b703986..f533d76 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -38,6 +38,20 @@ def generate_random_id():
     return str(uuid.uuid4())
 
 
+def get_correlation_id(request):
+    """
+    Returns the id of a request in the form its sender knows it by. The ids of
+    small messages travel as bytes, Flex clients turn those into upper case
+    strings.
+    """
+    message_id = getattr(request, 'messageId', None)
+
+    if isinstance(message_id, uuid.UUID):
+        return unicode(message_id).upper()
+
+    return message_id
+
+
 def generate_acknowledgement(request=None):
     ack = messaging.AcknowledgeMessage()
 
@@ -46,7 +60,7 @@ def generate_acknowledgement(request=None):
     ack.timestamp = calendar.timegm(time.gmtime())
 
     if request:
-        ack.correlationId = request.messageId
+        ack.correlationId = get_correlation_id(request)
 
     return ack
 
@@ -97,7 +111,7 @@ def generate_error(request, cls, e, tb, include_traceback=False):
         messageId=generate_random_id(),
         clientId=generate_random_id(),
         timestamp=calendar.timegm(time.gmtime()),
-        correlationId=getattr(request, 'messageId', None),
+        correlationId=get_correlation_id(request),
         faultCode=code,
         faultString=faultString,
         faultDetail=faultDetail,
-- 
2.43.0


From b7a4ad2706e5cb2ae21ecb04e1a7648039f02e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 31/44] fix: a small message with a string id or a numeric
 timestamp can be sent

The messages a gateway generates have both.
---
 pyamf/flex/messaging.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index 67b3093..4ae7dc6 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -147,6 +147,10 @@ class AbstractMessage(object):
             return obj
 
         if attr in ['timestamp', 'timeToLive']:
+            if isinstance(obj, (int, long, float)):
+                # already what travels
+                return obj
+
             return pyamf.util.get_timestamp(obj) * 1000.0
         elif attr in ['clientId', 'messageId']:
             if isinstance(obj, uuid.UUID):
@@ -200,7 +204,8 @@ class AbstractMessage(object):
             attr = self.SMALL_UUIDS[flag]
             value = getattr(self, attr)
 
-            if not value:
+            if not isinstance(value, uuid.UUID):
+                # written with the attributes above
                 continue
 
             byte |= flag
-- 
2.43.0


From 99ecf65209c13dfdcb9670524b02787811afd39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 32/44] fix: tell RemoteObject clients of the Twisted gateway
 their session id

The other gateways do; without it a Flex client takes each answer for a new
session.
---
 pyamf/remoting/amf3.py            | 21 +++++++++++++--------
 pyamf/remoting/gateway/twisted.py |  4 ++++
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index f533d76..0d5ea08 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -254,19 +254,24 @@ class RequestProcessor(object):
 
             body = remoting.Response(fault, status=remoting.STATUS_ERROR)
 
-        ro_response = body.body
+        set_session_id(ro_request, body.body)
 
-        dsid = None
+        return body
 
-        if hasattr(getattr(ro_request, 'headers', None), 'get'):
-            dsid = ro_request.headers.get('DSId', None)
 
-        if not dsid or dsid == 'nil':
-            dsid = generate_random_id()
+def set_session_id(ro_request, ro_response):
+    """
+    Tells the client which session its request belongs to.
+    """
+    dsid = None
 
-        ro_response.headers.setdefault('DSId', dsid)
+    if hasattr(getattr(ro_request, 'headers', None), 'get'):
+        dsid = ro_request.headers.get('DSId', None)
 
-        return body
+    if not dsid or dsid == 'nil':
+        dsid = generate_random_id()
+
+    ro_response.headers.setdefault('DSId', dsid)
 
 
 def get_message(amf_request):
diff --git a/pyamf/remoting/gateway/twisted.py b/pyamf/remoting/gateway/twisted.py
index b316e30..18a5de9 100644
--- a/pyamf/remoting/gateway/twisted.py
+++ b/pyamf/remoting/gateway/twisted.py
@@ -191,6 +191,8 @@ class AMF3RequestProcessor(amf3.RequestProcessor):
         ro_request = amf3.get_message(amf_request)
 
         def cb(amf_response):
+            amf3.set_session_id(ro_request, amf_response.body)
+
             deferred_response.callback(amf_response)
 
         def eb(failure):
@@ -205,6 +207,8 @@ class AMF3RequestProcessor(amf3.RequestProcessor):
                 (failure.type, failure.value, failure.tb)
             )
 
+            amf3.set_session_id(ro_request, ro_response)
+
             deferred_response.callback(
                 remoting.Response(ro_response, status=remoting.STATUS_ERROR)
             )
-- 
2.43.0


From fb0d8cdbcfa28054952cc18835dce55c49c0489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 33/44] fix: a method is guarded by its own decorators however
 the service provides it

The decorators of methods that a service delegates to were ignored, and one
property that raises made every other method of the service fail.
---
 pyamf/remoting/gateway/__init__.py | 46 ++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/pyamf/remoting/gateway/__init__.py b/pyamf/remoting/gateway/__init__.py
index b5e32aa..2ef3b23 100644
--- a/pyamf/remoting/gateway/__init__.py
+++ b/pyamf/remoting/gateway/__init__.py
@@ -149,20 +149,40 @@ class ServiceWrapper(object):
 
         return callables
 
+    def _get_method(self, name):
+        """
+        Returns the method of the underlying service object that a request for
+        C{name} runs, or C{None} if there is no such method.
+        """
+        if name is None or name.startswith('_'):
+            return None
+
+        try:
+            method = getattr(self.service, name)
+        except (AttributeError, UnicodeError):
+            return None
+
+        if not python.callable(method):
+            return None
+
+        if isinstance(method, (types.FunctionType, types.MethodType)) or \
+                name in dir(self.service):
+            return method
+
+        # made up by __getattr__, and so would be anything asked of it
+
     def getAuthenticator(self, service_request=None):
         if service_request is None:
             return self.authenticator
 
-        methods = self.getMethods()
-
         if service_request.method is None:
             if hasattr(self.service, '_pyamf_authenticator'):
                 return self.service._pyamf_authenticator
 
-        if service_request.method not in methods:
-            return self.authenticator
+        method = self._get_method(service_request.method)
 
-        method = methods[service_request.method]
+        if method is None:
+            return self.authenticator
 
         if hasattr(method, '_pyamf_authenticator'):
             return method._pyamf_authenticator
@@ -173,18 +193,16 @@ class ServiceWrapper(object):
         if service_request is None:
             return self.expose_request
 
-        methods = self.getMethods()
-
         if service_request.method is None:
             if hasattr(self.service, '_pyamf_expose_request'):
                 return self.service._pyamf_expose_request
 
             return self.expose_request
 
-        if service_request.method not in methods:
-            return self.expose_request
+        method = self._get_method(service_request.method)
 
-        method = methods[service_request.method]
+        if method is None:
+            return self.expose_request
 
         if hasattr(method, '_pyamf_expose_request'):
             return method._pyamf_expose_request
@@ -195,16 +213,14 @@ class ServiceWrapper(object):
         if service_request is None:
             return self.preprocessor
 
-        methods = self.getMethods()
-
         if service_request.method is None:
             if hasattr(self.service, '_pyamf_preprocessor'):
                 return self.service._pyamf_preprocessor
 
-        if service_request.method not in methods:
-            return self.preprocessor
+        method = self._get_method(service_request.method)
 
-        method = methods[service_request.method]
+        if method is None:
+            return self.preprocessor
 
         if hasattr(method, '_pyamf_preprocessor'):
             return method._pyamf_preprocessor
-- 
2.43.0


From 3cb20c93286dfaa65d9979b7746398805d6adc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:49 +0000
Subject: [PATCH 34/44] fix: do not finish a Twisted request again when
 finishing it fails

The client may have gone by the time the response is ready.
---
 pyamf/remoting/gateway/twisted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/remoting/gateway/twisted.py b/pyamf/remoting/gateway/twisted.py
index 18a5de9..c2a6f0a 100644
--- a/pyamf/remoting/gateway/twisted.py
+++ b/pyamf/remoting/gateway/twisted.py
@@ -349,7 +349,7 @@ class TwistedGateway(gateway.BaseGateway, resource.Resource):
             timezone_offset=timezone_offset
         )
 
-        d.addCallback(cb).addErrback(eb)
+        d.addCallbacks(cb, eb)
 
     def getProcessor(self, request):
         """
-- 
2.43.0


From e55c61183d9374eb1fdc742a9433ece128835ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:22 +0000
Subject: [PATCH 35/44] fix: let HeaderCollection.set_required clear the flag

set_required(name, False) - and so RemotingService.addHeader(name, value) for
a header that was required before - left the header marked as required.
---
 pyamf/remoting/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 2597312..e27c601 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -104,6 +104,8 @@ class HeaderCollection(dict):
 
         if idx not in self.required and value:
             self.required.append(idx)
+        elif idx in self.required and not value:
+            self.required.remove(idx)
 
     def __len__(self):
         return len(self.keys())
-- 
2.43.0


From 2668c124e18d07e0e2e581bfbed1d9a9d927042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:22 +0000
Subject: [PATCH 36/44] fix: client can reach a gateway whose url the server
 changed

AppendToGatewayUrl and ReplaceGatewayUrl headers are decoded as unicode. With
a unicode url httplib joins unicode HTTP headers with the binary body and
raises UnicodeDecodeError for nearly every request that follows.
---
 pyamf/remoting/client/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/client/__init__.py b/pyamf/remoting/client/__init__.py
index 283b955..21a7b4b 100644
--- a/pyamf/remoting/client/__init__.py
+++ b/pyamf/remoting/client/__init__.py
@@ -494,15 +494,19 @@ class RemotingService(object):
         if self.logger:
             self.logger.debug('Response: %s', response)
 
+        # the url must not be unicode or httplib will not be able to join the
+        # HTTP headers and the (binary) body of the next request
         if remoting.APPEND_TO_GATEWAY_URL in response.headers:
             self.original_url += response.headers[
                 remoting.APPEND_TO_GATEWAY_URL
-            ]
+            ].encode('utf-8')
 
             self._setUrl(self.original_url)
 
         elif remoting.REPLACE_GATEWAY_URL in response.headers:
-            self.original_url = response.headers[remoting.REPLACE_GATEWAY_URL]
+            self.original_url = response.headers[
+                remoting.REPLACE_GATEWAY_URL
+            ].encode('utf-8')
 
             self._setUrl(self.original_url)
 
-- 
2.43.0


From eea1f1b4038607004d2ba98c2ce4680563862891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:32 +0000
Subject: [PATCH 37/44] fix: timestamps of dates before 1970 with a fraction of
 a second

get_timestamp glued the microseconds to the (negative) number of seconds, so
half a second before 1970 became one and a half.
---
 pyamf/util/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyamf/util/__init__.py b/pyamf/util/__init__.py
index 5bb4105..056c375 100644
--- a/pyamf/util/__init__.py
+++ b/pyamf/util/__init__.py
@@ -51,9 +51,7 @@ def get_timestamp(d):
     if isinstance(d, datetime.date) and not isinstance(d, datetime.datetime):
         d = datetime.datetime.combine(d, datetime.time(0, 0, 0, 0))
 
-    msec = str(d.microsecond).rjust(6).replace(' ', '0')
-
-    return float('%s.%s' % (calendar.timegm(d.utctimetuple()), msec))
+    return calendar.timegm(d.utctimetuple()) + d.microsecond / 1e6
 
 
 def get_datetime(secs):
-- 
2.43.0


From 5800ea7d790052731f3df549d8045cd0dc443abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:32 +0000
Subject: [PATCH 38/44] fix: apply the whole timezone_offset to datetime.date
 objects

Subtracting a timedelta from a date uses its days only: with an offset of
some hours a date was encoded as midnight UTC, or as the next day's.
---
 pyamf/amf0.py | 4 ++++
 pyamf/amf3.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 67e8008..27783e1 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -673,6 +673,10 @@ class Encoder(codec.Encoder):
         self.context.addObject(d)
 
         if self.timezone_offset is not None:
+            if not isinstance(d, datetime.datetime):
+                # adding to a date would lose everything but whole days
+                d = datetime.datetime.combine(d, datetime.time())
+
             d -= self.timezone_offset
 
         secs = util.get_timestamp(d)
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 1f1e789..fe65f5e 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1335,6 +1335,10 @@ class Encoder(codec.Encoder):
         self.stream.write_uchar(REFERENCE_BIT)
 
         if self.timezone_offset is not None:
+            if not isinstance(n, datetime.datetime):
+                # adding to a date would lose everything but whole days
+                n = datetime.datetime.combine(n, datetime.time())
+
             n -= self.timezone_offset
 
         ms = util.get_timestamp(n)
-- 
2.43.0


From 05cb829f5e0b988f1c798a618fab25975616b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 39/44] fix: accept a timezone_offset in seconds in encoders
 and decoders

It is documented to be a timedelta or an int, but with an int any date raised
TypeError.
---
 pyamf/codec.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index 19d1006..e44bab2 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -333,6 +333,10 @@ class _Codec(object):
             forbid_entities=forbid_entities
         )
         self.strict = strict
+
+        if isinstance(timezone_offset, python.int_types):
+            timezone_offset = datetime.timedelta(seconds=timezone_offset)
+
         self.timezone_offset = timezone_offset
 
         self._func_cache = {}
-- 
2.43.0


From 9acbf2f7939f97d7bd0bd5618a385dae1d55f3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:50 +0000
Subject: [PATCH 40/44] fix: forget what adapters remembered of an element that
 failed

Context.rollback restored the dict of adapter data, but not the dicts of
entities that adapters keep in it: an instance of a Django model met in an
element that could not be encoded was sent instead of the instances loaded
for the same row later.
---
 pyamf/codec.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index e44bab2..c575c38 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -158,6 +158,23 @@ class ByteStringReferenceCollection(IndexedCollection):
         return idx
 
 
+def _snapshot(d, depth=2):
+    """
+    Remembers the contents of C{d} and of the dicts that it contains.
+
+    @return: A list of C{(dict, contents)}.
+    @see: L{Context.checkpoint}
+    """
+    ret = [(d, dict(d))]
+
+    if depth:
+        for value in d.itervalues():
+            if isinstance(value, dict):
+                ret.extend(_snapshot(value, depth - 1))
+
+    return ret
+
+
 class Context(object):
     """
     The base context for all AMF [de|en]coding.
@@ -203,7 +220,8 @@ class Context(object):
 
         @see: L{rollback}
         """
-        return len(self._objects), self.extra.copy()
+        # adapters keep their (dicts of) dicts of entities in extra
+        return len(self._objects), _snapshot(self.extra)
 
     def rollback(self, marker):
         """
@@ -214,8 +232,10 @@ class Context(object):
         objects, extra = marker
 
         self._objects.truncate(objects)
-        self.extra.clear()
-        self.extra.update(extra)
+
+        for d, contents in extra:
+            d.clear()
+            d.update(contents)
 
     def getObject(self, ref):
         """
-- 
2.43.0


From 8dd4348a5adf5a603610eb7ea4310e630b68d29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:42 +0000
Subject: [PATCH 41/44] fix: register_alias_type replaces each registered alias
 once

The same alias is cached by its name and by its class; they were replaced by
two different aliases, so that unregistering one left the other behind, and
classes registered without a name could not be replaced at all.
---
 pyamf/__init__.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index edc920d..186d579 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -783,17 +783,20 @@ def register_alias_type(klass, *args):
 
     ALIAS_TYPES[klass] = args
 
+    # the same alias is found by its name and by its class
+    replaced = {}
+
     for k, v in CLASS_CACHE.copy().iteritems():
         new_alias = util.get_class_alias(v.klass)
 
         if new_alias is klass:
-            meta = util.get_class_meta(v.klass)
-            meta['alias'] = v.alias
+            if id(v) not in replaced:
+                meta = util.get_class_meta(v.klass)
+                meta['alias'] = v.alias or None
 
-            alias_klass = klass(v.klass, **meta)
+                replaced[id(v)] = klass(v.klass, **meta)
 
-            CLASS_CACHE[k] = alias_klass
-            CLASS_CACHE[v.klass] = alias_klass
+            CLASS_CACHE[k] = replaced[id(v)]
 
 
 def unregister_alias_type(klass):
-- 
2.43.0


From d80401cc4e51bf31d2147f245f019b39a1b3b05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:17 +0000
Subject: [PATCH 42/44] fix: a custom type handler that returns None encodes
 null

Nothing was written for such an element (a dead weak reference, say), so that
the container it is part of could not be decoded.
---
 pyamf/codec.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index c575c38..21b0bd5 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -506,9 +506,11 @@ class _CustomTypeFunc(object):
         self.func = func
 
     def __call__(self, data, **kwargs):
+        pos = self.encoder.stream.tell()
         ret = self.func(data, encoder=self.encoder)
 
-        if ret is not None:
+        # nothing is left to do if func has written the element itself
+        if ret is not None or self.encoder.stream.tell() == pos:
             self.encoder.writeElement(ret)
 
 
-- 
2.43.0


From dc0c1553fefe27f6a013ba390161e9baf237ac8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:17 +0000
Subject: [PATCH 43/44] fix: remove_type accepts a list of types, as add_type
 and get_type do

---
 pyamf/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 186d579..08266d5 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -644,6 +644,9 @@ def remove_type(type_):
     """
     declaration = get_type(type_)
 
+    if isinstance(type_, list):
+        type_ = tuple(type_)
+
     del TYPE_MAP[type_]
 
     return declaration
-- 
2.43.0


From 7891160b46c9863df8faff9bd5bf94bdffa61b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:23 +0000
Subject: [PATCH 44/44] fix: a generator inside another element is written as
 one element

It was written as any number of elements, so that the list, object or remoting
message it is part of could not be decoded.
---
 pyamf/codec.py             | 13 +++++++++++--
 pyamf/remoting/__init__.py | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index 21b0bd5..95ca212 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -581,6 +581,12 @@ class Encoder(_Codec):
             except StopIteration:
                 break
 
+    def writeNestedGenerator(self, gen):
+        """
+        A generator that is part of another element is one element itself.
+        """
+        self.writeElement(list(gen))
+
     def getTypeFunc(self, data):
         """
         Returns a callable that will encode C{data} to C{self.stream}. If
@@ -605,7 +611,7 @@ class Encoder(_Codec):
         elif t in (list, tuple):
             return self.writeList
         elif t is types.GeneratorType:  # flake8: noqa
-            return self.writeGenerator
+            return self.writeNestedGenerator
         elif t is pyamf.UndefinedType:
             return self.writeUndefined
         elif t in (datetime.date, datetime.datetime, datetime.time):
@@ -702,7 +708,10 @@ class Encoder(_Codec):
         self.__nested = True
 
         try:
-            self.writeElement(data)
+            if type(data) is types.GeneratorType:
+                self.writeGenerator(data)
+            else:
+                self.writeElement(data)
 
             complete = True
         finally:
diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index e27c601..1174ea1 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -26,6 +26,8 @@ essential for the Adobe Flash Player to understand the response therefore.
 @since: 0.1
 """
 
+import types
+
 import pyamf
 from pyamf import util
 
@@ -516,16 +518,23 @@ def _write_body(name, message, stream, encoder, strict=False):
     @param strict: Use strict encoding policy. Default is C{False}.
     @type strict: C{boolean}
     """
+    def _encode_value(value):
+        # a generator would be written as any number of elements
+        if isinstance(value, types.GeneratorType):
+            value = list(value)
+
+        encoder.writeElement(value)
+
     def _encode_body(message):
         if isinstance(message, Response):
-            encoder.writeElement(message.body)
+            _encode_value(message.body)
 
             return
 
         stream.write('\x0a')
         stream.write_ulong(len(message.body))
         for x in message.body:
-            encoder.writeElement(x)
+            _encode_value(x)
 
     if not isinstance(message, (Request, Response)):
         raise TypeError("Unknown message type")
-- 
2.43.0

