From 69477847d3f6c096b6c1b6163347511111abc58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 01/45] fix: keep a function's qualified name when it equals
 its name but not its code's

---
 dill/_dill.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index da8aee2..73d3f34 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2031,7 +2031,9 @@ def save_function(pickler, obj):
             fattr = getattr(obj, fattrname, None)
             if fattr is not None:
                 state_dict[fattrname] = fattr
-        if obj.__qualname__ != obj.__name__:
+        # python >= 3.11 takes the default qualname from the code object
+        if obj.__qualname__ != obj.__name__ or \
+                obj.__qualname__ != getattr(obj.__code__, 'co_qualname', obj.__name__):
             state_dict['__qualname__'] = obj.__qualname__
         if '__name__' not in globs or obj.__module__ != globs['__name__']:
             state_dict['__module__'] = obj.__module__
-- 
2.43.0


From 05d2ba9a9e2675be96cd23334d8fb1e37da1bb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 02/45] fix: find global names without replacing sys.stdout,
 which other threads share

---
 dill/detect.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index cdd4287..618809e 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -141,14 +141,14 @@ def nestedglobals(func, recurse=True):
     func = code(func)
     if func is None: return list()
     import sys
-    from .temp import capture
+    from io import StringIO
     CAN_NULL = sys.hexversion >= 0x30b00a7 # NULL may be prepended >= 3.11a7
     names = set()
-    with capture('stdout') as out:
-        try:
-            dis.dis(func) #XXX: dis.dis(None) disassembles last traceback
-        except IndexError:
-            pass #FIXME: HACK for IS_PYPY (3.11)
+    out = StringIO() # don't capture sys.stdout, as it's shared with other threads
+    try:
+        dis.dis(func, file=out) #XXX: dis.dis(None) disassembles last traceback
+    except IndexError:
+        pass #FIXME: HACK for IS_PYPY (3.11)
     for line in out.getvalue().splitlines():
         if '_GLOBAL' in line:
             name = line.split('(')[-1].split(')')[0]
-- 
2.43.0


From 4741ca0013d10c97f6274e9ef19aae59f47e4d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 03/45] fix: find globals that are only used in the body of a
 nested class

---
 dill/detect.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dill/detect.py b/dill/detect.py
index 618809e..51204eb 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -156,6 +156,16 @@ def nestedglobals(func, recurse=True):
                 names.add(name.replace('NULL + ', '').replace(' + NULL', ''))
             else:
                 names.add(name)
+    # class bodies (and module code) look up names locally before globally
+    stored = set()
+    try:
+        for op in dis.get_instructions(func):
+            if op.opname == 'STORE_NAME':
+                stored.add(op.argval)
+            elif op.opname == 'LOAD_NAME' and op.argval not in stored:
+                names.add(op.argval)
+    except IndexError:
+        pass #FIXME: HACK for IS_PYPY (3.11)
     for co in getattr(func, 'co_consts', tuple()):
         if co and recurse and iscode(co):
             names.update(nestedglobals(co, recurse=True))
-- 
2.43.0


From 7c5c8e654a7b9c86bbcbaeeb8e99b0691733fa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 04/45] fix: stop infinite recursion on mutually recursive
 functions when collecting globals

---
 dill/detect.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index 51204eb..2e1587c 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -175,11 +175,16 @@ def referredglobals(func, recurse=True, builtin=False):
     """get the names of objects in the global scope referred to by func"""
     return globalvars(func, recurse, builtin).keys()
 
-def globalvars(func, recurse=True, builtin=False):
+def globalvars(func, recurse=True, builtin=False, _seen=None):
     """get objects defined in global scope that are referred to by func
 
     return a dict of {name:object}"""
     if ismethod(func): func = func.__func__
+    # stop infinite recursion, as functions may refer to each other
+    _seen = set() if _seen is None else _seen
+    if isfunction(func) or iscode(func):
+        if id(func) in _seen: return {}
+        _seen.add(id(func))
     if isfunction(func):
         globs = vars(getmodule(sum)).copy() if builtin else {}
         # get references from within closure
@@ -190,7 +195,7 @@ def globalvars(func, recurse=True, builtin=False):
             except ValueError: # cell is empty
                 pass
             else:
-                _vars = globalvars(cell_contents, recurse, builtin) or {}
+                _vars = globalvars(cell_contents, recurse, builtin, _seen) or {}
                 func.update(_vars) #XXX: (above) be wary of infinte recursion?
                 globs.update(_vars)
         # get globals
@@ -206,7 +211,7 @@ def globalvars(func, recurse=True, builtin=False):
                 if nested_func is orig_func:
                    #func.remove(key) if key in func else None
                     continue  #XXX: globalvars(func, False)?
-                func.update(globalvars(nested_func, True, builtin))
+                func.update(globalvars(nested_func, True, builtin, _seen))
     elif iscode(func):
         globs = vars(getmodule(sum)).copy() if builtin else {}
        #globs.update(globals())
@@ -221,7 +226,7 @@ def globalvars(func, recurse=True, builtin=False):
                    #func.remove(key) if key in func else None
                     continue  #XXX: globalvars(func, False)?
                 nested_func = globs.get(key)
-                func.update(globalvars(nested_func, True, builtin))
+                func.update(globalvars(nested_func, True, builtin, _seen))
     else:
         return {}
     #NOTE: if name not in __globals__, then we skip it...
-- 
2.43.0


From 672c93c909af9e0785bab3d709f851162cfec3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 05/45] fix: leave the warning filters as they were after
 checking if an object pickles

---
 dill/_dill.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 73d3f34..727a82f 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2189,9 +2189,9 @@ def pickles(obj,exact=False,safe=False,**kwds):
             #FIXME: should be "(pik == obj).all()" for numpy comparison, though that'll fail if shapes differ
             result = bool(pik.all() == obj.all())
         except (AttributeError, TypeError):
-            warnings.filterwarnings('ignore') #FIXME: be specific
-            result = pik == obj
-            if warnings.filters: del warnings.filters[0]
+            with warnings.catch_warnings():
+                warnings.filterwarnings('ignore') #FIXME: be specific
+                result = pik == obj
         if hasattr(result, 'toarray'): # for unusual types like sparse matrix
             result = result.toarray().all()
         if result: return True
-- 
2.43.0


From 1a10503124fc8483f9eec93c6768c38698ae252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 06/45] fix: don't restart tracing to stderr on leaving a
 nested redirected trace

---
 dill/logger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dill/logger.py b/dill/logger.py
index a330112..4a00289 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -271,6 +271,7 @@ class TraceManager(contextlib.AbstractContextManager):
                 self.handler = logging.StreamHandler(self.file)
             else:
                 self.handler = logging.FileHandler(self.file, self.mode)
+            self.had_stderr = stderr_handler in logger.handlers
             adapter.removeHandler(stderr_handler)
             adapter.addHandler(self.handler)
         self.old_level = adapter.getEffectiveLevel()
@@ -280,6 +281,7 @@ class TraceManager(contextlib.AbstractContextManager):
         adapter.setLevel(self.old_level)
         if self.redirect:
             adapter.removeHandler(self.handler)
-            adapter.addHandler(stderr_handler)
+            if self.had_stderr: # else it's removed by an enclosing context
+                adapter.addHandler(stderr_handler)
             if not self.file_is_stream:
                 self.handler.close()
-- 
2.43.0


From c0c6e1d3bd3414846e4483ddd89c0c50dee3df04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 07/45] fix: honor 'ignore' when searching for parents

---
 dill/pointers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/pointers.py b/dill/pointers.py
index d27745f..17b96db 100644
--- a/dill/pointers.py
+++ b/dill/pointers.py
@@ -46,7 +46,7 @@ def parents(obj, objtype, depth=1, ignore=()): #XXX: objtype=object ?
    #if objtype is None: predicate = lambda x: True #XXX: in obj.mro() ?
     ignore = (ignore,) if not hasattr(ignore, '__len__') else ignore
     ignore = (id(obj) for obj in ignore)
-    chain = find_chain(obj, predicate, edge_func, depth)[::-1]
+    chain = find_chain(obj, predicate, edge_func, depth, ignore)[::-1]
     #XXX: should pop off obj... ?
     return chain
 
-- 
2.43.0


From 7667904188de54a32cadc78ed1556b93a99fe333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 08/45] fix: load the session of a non-importable module as a
 dictionary

---
 dill/session.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/dill/session.py b/dill/session.py
index db556c8..db825f8 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -638,16 +638,20 @@ def load_module_asdict(
     try:
         file = _make_peekable(file)
         main_name = _identify_module(file)
-        old_main = sys.modules.get(main_name)
-        main = ModuleType(main_name)
-        if update:
-            if old_main is None:
-                old_main = _import_module(main_name)
-            main.__dict__.update(old_main.__dict__)
+        if main_name.startswith('__runtime__.'):
+            # not an imported module, thus it's always loaded to a new module
+            main = load_module(file, **kwds)
         else:
-            main.__builtins__ = __builtin__
-        sys.modules[main_name] = main
-        load_module(file, **kwds)
+            old_main = sys.modules.get(main_name)
+            main = ModuleType(main_name)
+            if update:
+                if old_main is None:
+                    old_main = _import_module(main_name)
+                main.__dict__.update(old_main.__dict__)
+            else:
+                main.__builtins__ = __builtin__
+            sys.modules[main_name] = main
+            load_module(file, **kwds)
     finally:
         if not hasattr(filename, 'read'):  # if newly opened file
             file.close()
-- 
2.43.0


From 6cf8b82c69183dd017940355be46ead5ed2c5fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 09/45] fix: bind functions of a restored non-importable module
 to that module

---
 dill/_dill.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index 727a82f..586c3b0 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2006,6 +2006,10 @@ def save_function(pickler, obj):
             if _main_modified and globs_copy is _original_main.__dict__:
                 globs_copy = getattr(pickler, '_main', _original_main).__dict__
                 globs = globs_copy
+            # If the globals is the __dict__ of the (maybe not importable)
+            # module being saved as a session, refer to the restored module.
+            elif getattr(pickler, '_session', False) and globs_copy is pickler._main.__dict__:
+                globs = globs_copy
             # If the globals is a module __dict__, do not save it in the pickle.
             elif globs_copy is not None and obj.__module__ is not None and \
                     getattr(_import_module(obj.__module__, True), '__dict__', None) is globs_copy:
-- 
2.43.0


From 7a29a9525fc7e01cfd95ac512634250ffb069ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 10/45] fix: restore binary and non-native text files exactly
 with FILE_FMODE

---
 dill/_dill.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 586c3b0..458154d 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -862,17 +862,15 @@ def _create_filehandle(name, mode, position, closed, open, strictio, fmode, fdat
         # NOTE: has different fileno
         try:
             #FIXME: missing: *buffering*, encoding, softspace
-            if fmode == FILE_FMODE:
-                f = open(name, mode if "w" in mode else "w")
+            if fmode == FILE_FMODE: # restore the contents (a str in older pickles)
+                f = open(name, "wb" if isinstance(fdata, bytes) else "w")
                 f.write(fdata)
-                if "w" not in mode:
-                    f.close()
-                    f = open(name, mode)
-            elif name == '<fdopen>': # file did not exist
+                f.close()
+            if name == '<fdopen>': # file did not exist
                 import tempfile
                 f = tempfile.TemporaryFile(mode)
             # treat x mode as w mode
-            elif fmode == CONTENTS_FMODE \
+            elif fmode in (CONTENTS_FMODE, FILE_FMODE) \
                and ("w" in mode or "x" in mode):
                 # stop truncation when opening
                 flags = os.O_CREAT
@@ -1397,7 +1395,7 @@ def _save_file(pickler, obj, open_):
         else:
             position = obj.tell()
     if is_dill(pickler, child=True) and pickler._fmode == FILE_FMODE:
-        f = open_(obj.name, "r")
+        f = open_(obj.name, "rb") # as is: no decoding or newline translation
         fdata = f.read()
         f.close()
     else:
-- 
2.43.0


From 3d208fd2418b80ac1746fed62cbba93b18bcc85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 11/45] fix: pickle a copy of the main namespace by value, not
 as the live namespace

---
 dill/_dill.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 458154d..289d570 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1241,12 +1241,12 @@ def _repr_dict(obj):
 
 @register(dict)
 def save_module_dict(pickler, obj):
-    if is_dill(pickler, child=False) and obj == pickler._main.__dict__ and \
+    if is_dill(pickler, child=False) and obj is pickler._main.__dict__ and \
             not (pickler._session and pickler._first_pass):
         logger.trace(pickler, "D1: %s", _repr_dict(obj)) # obj
         pickler.write(bytes('c__builtin__\n__main__\n', 'UTF-8'))
         logger.trace(pickler, "# D1")
-    elif (not is_dill(pickler, child=False)) and (obj == _main_module.__dict__):
+    elif (not is_dill(pickler, child=False)) and (obj is _main_module.__dict__):
         logger.trace(pickler, "D3: %s", _repr_dict(obj)) # obj
         pickler.write(bytes('c__main__\n__dict__\n', 'UTF-8'))  #XXX: works in general?
         logger.trace(pickler, "# D3")
-- 
2.43.0


From d8763589b088341fe69a1539e12531528a3acd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 12/45] fix: keep class attributes that are also attributes of
 a base class

---
 dill/_dill.py | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 289d570..28a93cb 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1757,24 +1757,7 @@ def save_module(pickler, obj):
 # Copyright (c) 2009 `PiCloud, Inc. <http://www.picloud.com>`_.
 # License: https://github.com/cloudpipe/cloudpickle/blob/master/LICENSE
 def _get_typedict_type(cls, clsdict, attrs, postproc_list):
-    """Retrieve a copy of the dict of a class without the inherited methods"""
-    if len(cls.__bases__) == 1:
-        inherited_dict = cls.__bases__[0].__dict__
-    else:
-        inherited_dict = {}
-        for base in reversed(cls.__bases__):
-            inherited_dict.update(base.__dict__)
-    to_remove = []
-    for name, value in dict.items(clsdict):
-        try:
-            base_value = inherited_dict[name]
-            if value is base_value and hasattr(value, '__qualname__'):
-                to_remove.append(name)
-        except KeyError:
-            pass
-    for name in to_remove:
-        dict.pop(clsdict, name)
-
+    """Retrieve a copy of the dict of a class without the inherited descriptors"""
     if issubclass(type(cls), type):
         clsdict.pop('__dict__', None)
         clsdict.pop('__weakref__', None)
-- 
2.43.0


From 05afd4d5d3b3133bda8eca3753f7ed6cc93f5ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 13/45] fix: keep a function's cleared docstring cleared

---
 dill/_dill.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index 28a93cb..873ecb1 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2016,6 +2016,9 @@ def save_function(pickler, obj):
             fattr = getattr(obj, fattrname, None)
             if fattr is not None:
                 state_dict[fattrname] = fattr
+        # a new function takes its docstring from the code object
+        if obj.__doc__ is None and isinstance((obj.__code__.co_consts or (None,))[0], str):
+            state_dict['__doc__'] = None
         # python >= 3.11 takes the default qualname from the code object
         if obj.__qualname__ != obj.__name__ or \
                 obj.__qualname__ != getattr(obj.__code__, 'co_qualname', obj.__name__):
-- 
2.43.0


From cbbc70b0e37ac5cf3f25b1b087a6350b9ddee6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 14/45] fix: keep what a namedtuple class adds, and don't
 mistake a namesake for it

---
 dill/_dill.py | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 873ecb1..afc639d 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -991,14 +991,37 @@ def _create_dtypemeta(scalar_type):
         return NumpyDType
     return type(NumpyDType(scalar_type))
 
-def _create_namedtuple(name, fieldnames, modulename, defaults=None):
-    class_ = _import_module(modulename + '.' + name, safe=True)
+def _create_namedtuple(name, fieldnames, modulename, defaults=None,
+                       attrs=None, locate=True):
+    class_ = _import_module(modulename + '.' + name, safe=True) if locate else None
     if class_ is not None:
         return class_
     import collections
     t = collections.namedtuple(name, fieldnames, defaults=defaults, module=modulename)
+    for attr, value in (attrs or {}).items():
+        setattr(t, attr, value)
+    if attrs and '__annotations__' in attrs:
+        t.__new__.__annotations__ = attrs['__annotations__']
     return t
 
+def _get_namedtuple_attrs(cls):
+    """Retrieve what a class has in addition to a namedtuple of the same fields"""
+    import collections
+    plain = collections.namedtuple(cls.__name__, cls._fields).__dict__
+    attrs = {}
+    for name, value in cls.__dict__.items():
+        if name not in plain:
+            attrs[name] = value
+        elif name in cls._fields:
+            if value.__doc__ != plain[name].__doc__:
+                attrs[name] = value
+        elif name == '__doc__':
+            if value != plain[name]:
+                attrs[name] = value
+        elif getattr(value, '__code__', None) is not getattr(plain[name], '__code__', None):
+            attrs[name] = value
+    return attrs
+
 def _create_capsule(pointer, name, context, destructor):
     attr_found = False
     try:
@@ -1793,7 +1816,8 @@ def save_type(pickler, obj, postproc_list=None):
         #     warnings.warn('Type %r may only exist on this implementation of Python and cannot be unpickled in other implementations.' % (obj,), PicklingWarning)
         pickler.save_reduce(_load_type, (_typemap[obj],), obj=obj)
         logger.trace(pickler, "# T1")
-    elif obj.__bases__ == (tuple,) and all([hasattr(obj, attr) for attr in ('_fields','_asdict','_make','_replace')]):
+    elif obj.__bases__ == (tuple,) and all([hasattr(obj, attr) for attr in ('_fields','_asdict','_make','_replace')]) \
+            and not _locate_function(obj, pickler):
         # special case: namedtuples
         logger.trace(pickler, "T6: %s", obj)
 
@@ -1803,11 +1827,16 @@ def save_type(pickler, obj, postproc_list=None):
                 postproc_list = []
             postproc_list.append((setattr, (obj, '__qualname__', obj_name)))
 
-        if not obj._field_defaults:
-            _save_with_postproc(pickler, (_create_namedtuple, (obj.__name__, obj._fields, obj.__module__)), obj=obj, postproc_list=postproc_list)
-        else:
+        args = (obj.__name__, obj._fields, obj.__module__)
+        attrs = _get_namedtuple_attrs(obj)
+        # on load, don't mistake a namesake for the class
+        locate = _import_module('%s.%s' % (obj.__module__, obj.__name__), safe=True) is obj
+        if obj._field_defaults or attrs or not locate:
             defaults = [obj._field_defaults[field] for field in obj._fields if field in obj._field_defaults]
-            _save_with_postproc(pickler, (_create_namedtuple, (obj.__name__, obj._fields, obj.__module__, defaults)), obj=obj, postproc_list=postproc_list)
+            args += (defaults,)
+        if attrs or not locate:
+            args += (attrs, locate)
+        _save_with_postproc(pickler, (_create_namedtuple, args), obj=obj, postproc_list=postproc_list)
         logger.trace(pickler, "# T6")
         return
 
-- 
2.43.0


From 741c4b954c96b3168e4c941a64890d47f088027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 15/45] fix: keep the bases of a class that inherits from a
 generic class

---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index afc639d..a642c69 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1899,7 +1899,7 @@ def save_type(pickler, obj, postproc_list=None):
             if qualname is not None:
                 postproc_list.append((setattr, (obj, '__qualname__', qualname)))
 
-            if not hasattr(obj, '__orig_bases__'):
+            if '__orig_bases__' not in obj.__dict__: # may be inherited
                 _save_with_postproc(pickler, (_create_type, (
                     type(obj), obj.__name__, obj.__bases__, _dict
                 )), obj=obj, postproc_list=postproc_list)
-- 
2.43.0


From 627d1ae86077473afb7ee8916b404d0b6f28dfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 16/45] fix: pickle classes that have private slots

---
 dill/_dill.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index a642c69..06978ce 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1884,6 +1884,10 @@ def save_type(pickler, obj, postproc_list=None):
                 slots = (slots,)
 
             for name in slots:
+                if name.startswith('__') and not name.endswith('__'):
+                    # the descriptor of a private slot has a mangled name
+                    _class = obj.__name__.lstrip('_')
+                    name = '_%s%s' % (_class, name) if _class else name
                 _dict.pop(name, None)
 
             if isinstance(obj, abc.ABCMeta):
-- 
2.43.0


From ac188c680057ca78f36a2849f46ff9242fe83df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:39 +0000
Subject: [PATCH 17/45] fix: load the session of a submodule as a dictionary
 without changing the submodule

---
 dill/_dill.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 06978ce..44734b3 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1083,8 +1083,10 @@ def _import_module(import_name, safe=False):
             items = import_name.split('.')
             module = '.'.join(items[:-1])
             obj = items[-1]
-            submodule = getattr(__import__(module, None, None, [obj]), obj)
-            if isinstance(submodule, (ModuleType, type)):
+            submodule = getattr(__import__(module, None, None, [obj]), obj, None)
+            if isinstance(submodule, ModuleType):
+                return sys.modules.get(import_name) or submodule
+            if isinstance(submodule, type):
                 return submodule
             return __import__(import_name, None, None, [obj])
         else:
-- 
2.43.0


From a5419695186613d0238a84acf25f3ba2ed0d582e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 18/45] fix: don't store a copy of the module's namespace in
 sessions saved with imported objects by reference

---
 dill/_dill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 44734b3..fd107aa 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1266,7 +1266,8 @@ def _repr_dict(obj):
 
 @register(dict)
 def save_module_dict(pickler, obj):
-    if is_dill(pickler, child=False) and obj is pickler._main.__dict__ and \
+    if is_dill(pickler, child=False) and (obj is pickler._main.__dict__
+            or getattr(pickler, '_main_modified', False) and obj is pickler._original_main.__dict__) and \
             not (pickler._session and pickler._first_pass):
         logger.trace(pickler, "D1: %s", _repr_dict(obj)) # obj
         pickler.write(bytes('c__builtin__\n__main__\n', 'UTF-8'))
-- 
2.43.0


From 1b7a92bc808e829458afbbd5084b1a02ec2ab2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 19/45] fix: keep inner references to the module in sessions
 saved with imported objects by reference

---
 dill/_dill.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index fd107aa..a610130 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1752,6 +1752,10 @@ def save_module(pickler, obj):
         pickler.save_reduce(_import_module, (obj.__name__,), obj=obj)
         logger.trace(pickler, "# M1")
     else:
+        if getattr(pickler, '_main_modified', False) and obj is pickler._original_main:
+            # a reference to the module being saved, which is saved as a copy
+            pickler.save(pickler._main)
+            return
         builtin_mod = _is_builtin_module(obj)
         is_session_main = is_dill(pickler, child=True) and obj is pickler._main
         if (obj.__name__ not in ("builtins", "dill", "dill._dill") and not builtin_mod
-- 
2.43.0


From 8ef4fe23a52feaadb465e472918d0a4a909cf1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 20/45] fix: don't report a set as changed when an item was
 removed and added again

---
 dill/__diff.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dill/__diff.py b/dill/__diff.py
index 6fa8dd5..e1812ec 100644
--- a/dill/__diff.py
+++ b/dill/__diff.py
@@ -193,6 +193,10 @@ def whats_changed(obj, seen=None, simple=False, first=True):
                    or chngd(item, seen, True, False):
                     seq_diff = True
                     break
+        elif isinstance(items, (set, frozenset)):  # no order to compare
+            obj_seq = set(obj_seq)
+            seq_diff = any(id_(i) not in obj_seq or chngd(i, seen, True, False)
+                           for i in items)
         else:
             for i, j in zip(items, obj_seq):  # list type obj
                 if id_(i) != j or chngd(i, seen, True, False):
-- 
2.43.0


From 892ba9d9c31dcebd2b9d6fad56907a275184522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 21/45] fix: close the file descriptor when the path of a
 session to load is a directory

---
 dill/session.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dill/session.py b/dill/session.py
index db825f8..d38c284 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -79,7 +79,11 @@ def _safe_open_for_reading(path):
     """
     _check_symlink(path)
     fd = os.open(path, os.O_RDONLY | _O_NOFOLLOW)
-    return os.fdopen(fd, 'rb')
+    try:
+        return os.fdopen(fd, 'rb')
+    except BaseException:  # e.g. path is a directory
+        os.close(fd)
+        raise
 
 _DEFAULT_PATH_WARNING = (
     "using the default session file %r which is in a world-writable "
-- 
2.43.0


From 531255a57d17acd30aa37343722daf9b9ef79692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:11 +0000
Subject: [PATCH 22/45] fix: drop user-registered types too when removing the
 extension of pickle's dispatch table

---
 dill/_dill.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index a610130..bb97661 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -481,13 +481,16 @@ def register(t):
         return func
     return proxy
 
+_extended = {} # what _extend has put in pickle's dispatch table
+
 def _revert_extension():
     """drop dill-registered types from pickle's dispatch table"""
     for type, func in list(StockPickler.dispatch.items()):
-        if func.__module__ == __name__:
+        if func.__module__ == __name__ or _extended.get(type) is func:
             del StockPickler.dispatch[type]
             if type in pickle_dispatch_copy:
                 StockPickler.dispatch[type] = pickle_dispatch_copy[type]
+    _extended.clear()
 
 def use_diff(on=True):
     """
@@ -2286,6 +2289,7 @@ def _extend():
     for t,func in Pickler.dispatch.items():
         try:
             StockPickler.dispatch[t] = func
+            _extended[t] = func
         except Exception: #TypeError, PicklingError, UnpicklingError
             logger.trace(pickler, "skip: %s", t)
     return
-- 
2.43.0


From ebc4b0614cd433139364b944803146747dc1c6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:25 +0000
Subject: [PATCH 23/45] fix: pickle functions with detached globals with the
 extended standard pickler

---
 dill/_dill.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index bb97661..d2179d5 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1160,10 +1160,10 @@ def _save_with_postproc(pickler, reduction, is_pickler_dill=None, obj=Getattr.NO
     # TODO: Use state_setter in Python 3.8 to allow for faster cPickle implementations
     pickler.save_reduce(*reduction, obj=obj)
 
-    if is_pickler_dill:
+    if is_pickler_dill or postproc_list:
         # pickler.x -= 1
         # print(pickler.x*' ', 'pop', obj, id(obj))
-        postproc = pickler._postproc.pop(id(obj))
+        postproc = pickler._postproc.pop(id(obj)) if is_pickler_dill else postproc_list
         # assert postproc_list == postproc, 'Stack tampered!'
         for reduction in reversed(postproc):
             if reduction[0] is _setitems:
@@ -2046,7 +2046,7 @@ def save_function(pickler, obj):
             # the globals dictionary is updated when all objects in the
             # dictionary are already created.
             glob_ids = {id(g) for g in globs_copy.values()}
-            for stack_element in _postproc:
+            for stack_element in _postproc or (): # None: not dill's pickler
                 if stack_element in glob_ids:
                     _postproc[stack_element].append((_setitems, (globs, globs_copy)))
                     break
-- 
2.43.0


From 83ea49e840fd5f1765a6159a388e5f23b7391714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:36 +0000
Subject: [PATCH 24/45] fix: don't close or move files opened by a descriptor
 when pickling or loading them

---
 dill/_dill.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index d2179d5..20c01d7 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -865,11 +865,22 @@ def _create_filehandle(name, mode, position, closed, open, strictio, fmode, fdat
         # NOTE: has different fileno
         try:
             #FIXME: missing: *buffering*, encoding, softspace
-            if fmode == FILE_FMODE: # restore the contents (a str in older pickles)
+            if isinstance(name, int): # a descriptor: don't take over its ownership
+                if fmode == FILE_FMODE:
+                    import tempfile
+                    f = tempfile.TemporaryFile(mode)
+                    with open(os.dup(f.fileno()), "wb") as contents:
+                        contents.write(fdata)
+                    f.seek(0)
+                else:
+                    f = open(os.dup(name), mode)
+            elif fmode == FILE_FMODE: # restore the contents (a str in older pickles)
                 f = open(name, "wb" if isinstance(fdata, bytes) else "w")
                 f.write(fdata)
                 f.close()
-            if name == '<fdopen>': # file did not exist
+            if isinstance(name, int):
+                pass
+            elif name == '<fdopen>': # file did not exist
                 import tempfile
                 f = tempfile.TemporaryFile(mode)
             # treat x mode as w mode
@@ -1424,9 +1435,19 @@ def _save_file(pickler, obj, open_):
         else:
             position = obj.tell()
     if is_dill(pickler, child=True) and pickler._fmode == FILE_FMODE:
-        f = open_(obj.name, "rb") # as is: no decoding or newline translation
-        fdata = f.read()
-        f.close()
+        # as is: no decoding or newline translation
+        if isinstance(obj.name, int): # a descriptor: leave it open, and in place
+            offset = os.lseek(obj.name, 0, os.SEEK_CUR)
+            try:
+                with open_(obj.name, "rb", closefd=False) as f:
+                    f.seek(0)
+                    fdata = f.read()
+            finally:
+                os.lseek(obj.name, offset, os.SEEK_SET)
+        else:
+            f = open_(obj.name, "rb")
+            fdata = f.read()
+            f.close()
     else:
         fdata = ""
     if is_dill(pickler, child=True):
-- 
2.43.0


From 98bbd3bfc38fb51c5e759389ed867664db03ba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:59 +0000
Subject: [PATCH 25/45] fix: restore an inherited logging level when leaving a
 tracing context

---
 dill/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/logger.py b/dill/logger.py
index 4a00289..5203569 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -274,7 +274,7 @@ class TraceManager(contextlib.AbstractContextManager):
             self.had_stderr = stderr_handler in logger.handlers
             adapter.removeHandler(stderr_handler)
             adapter.addHandler(self.handler)
-        self.old_level = adapter.getEffectiveLevel()
+        self.old_level = logger.level # not the effective one, which may be inherited
         adapter.setLevel(logging.INFO)
         return adapter.info
     def __exit__(self, *exc_info):
-- 
2.43.0


From 9cf45ebc14bd06f48ba2d98f58c8567713d30971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:55 +0000
Subject: [PATCH 26/45] fix: a copied free reentrant lock can be acquired

---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 20c01d7..a8dc49f 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -822,7 +822,7 @@ def _create_lock(locked, *args): #XXX: ignores 'blocking'
 
 def _create_rlock(count, owner, *args): #XXX: ignores 'blocking'
     lock = RLockType()
-    if owner is not None:
+    if count: # restoring a free lock would leave it locked forever
         lock._acquire_restore((count, owner))
     if owner and not lock._is_owned():
         raise UnpicklingError("Cannot acquire lock")
-- 
2.43.0


From eae31d82241bdefa5488afbec85b4b97e7e7b319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:55 +0000
Subject: [PATCH 27/45] fix: find a weak proxy's referent by the proxy's own
 repr, whatever its string form is

---
 dill/_dill.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index a8dc49f..353e326 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1680,7 +1680,11 @@ def save_singleton(pickler, obj):
 
 def _proxy_helper(obj): # a dead proxy returns a reference to None
     """get memory address of proxy's reference object"""
+    if not IS_PYPY and type(obj) not in (ProxyType, CallableProxyType):
+        return id(obj) # it's not a proxy
     _repr = repr(obj)
+    if not IS_PYPY: # a proxy's repr has the address (of None, if it's dead)
+        return int(_repr.rstrip('>').split(' at ')[-1], base=16)
     try: _str = str(obj)
     except ReferenceError: # it's a dead proxy
         return id(None)
-- 
2.43.0


From 9547a31fa4721170c617afd7fc4fffbdf39e08e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:17 +0000
Subject: [PATCH 28/45] fix: check objects with an interpreter whose path has
 spaces, and accept the 'ignore' option as documented

---
 dill/_dill.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 353e326..da50c76 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2273,8 +2273,9 @@ def check(obj, *args, **kwds):
    # == undocumented ==
    # python -- the string path or executable name of the selected python
    # verbose -- if True, be verbose about printing warning messages
-   # all other args and kwds are passed to dill.dumps #FIXME: ignore on load
+   # ignore is passed to dill.loads, all other args and kwds to dill.dumps
     verbose = kwds.pop('verbose', False)
+    ignore = kwds.pop('ignore', None)
     python = kwds.pop('python', None)
     if python is None:
         import sys
@@ -2289,14 +2290,9 @@ def check(obj, *args, **kwds):
     finally:
         if fail and verbose:
             print("DUMP FAILED")
-    #FIXME: fails if python interpreter path contains spaces
-    # Use the following instead (which also processes the 'ignore' keyword):
-    #    ignore = kwds.pop('ignore', None)
-    #    unpickle = "dill.loads(%s, ignore=%s)"%(repr(_obj), repr(ignore))
-    #    cmd = [python, "-c", "import dill; print(%s)"%unpickle]
-    #    msg = "SUCCESS" if not subprocess.call(cmd) else "LOAD FAILED"
-    msg = "%s -c import dill; print(dill.loads(%s))" % (python, repr(_obj))
-    msg = "SUCCESS" if not subprocess.call(msg.split(None,2)) else "LOAD FAILED"
+    unpickle = "dill.loads(%s, ignore=%s)" % (repr(_obj), repr(ignore))
+    cmd = [python, "-c", "import dill; print(%s)" % unpickle]
+    msg = "SUCCESS" if not subprocess.call(cmd) else "LOAD FAILED"
     if verbose:
         print(msg)
     return
-- 
2.43.0


From 215e4f8eed4ae1469c6e0d5e7d1d597a1d8d88f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:40 +0000
Subject: [PATCH 29/45] fix: pickle code objects without changing the warning
 filters, which other threads share

---
 dill/_dill.py | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index da50c76..dd51fe7 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1202,6 +1202,27 @@ def _save_with_postproc(pickler, reduction, is_pickler_dill=None, obj=Getattr.NO
 #    logger.trace(pickler, "# Co")
 #    return
 
+def _get_lnotab(code):
+    """get co_lnotab of a code object"""
+    if OLD312a7:
+        return code.co_lnotab
+    # deprecated (issue 597), and ignoring a warning isn't thread-safe
+    lnotab, start, line = bytearray(), 0, code.co_firstlineno
+    for offset, _, lineno in code.co_lines():
+        if lineno is None or lineno == line:
+            continue
+        delta, step = offset - start, lineno - line
+        while delta > 255:
+            lnotab += b'\xff\x00'
+            delta -= 255
+        while not -128 <= step <= 127:
+            limit = 127 if step > 0 else -128
+            lnotab += bytes((delta, limit & 255))
+            delta, step = 0, step - limit
+        lnotab += bytes((delta, step & 255))
+        start, line = offset, lineno
+    return bytes(lnotab)
+
 # The following function is based on 'save_codeobject' from 'cloudpickle'
 # Copyright (c) 2012, Regents of the University of California.
 # Copyright (c) 2009 `PiCloud, Inc. <http://www.picloud.com>`_.
@@ -1221,18 +1242,15 @@ def save_code(pickler, obj):
             obj.co_cellvars
         )
     elif hasattr(obj, "co_exceptiontable"): # python 3.11 (18 args)
-        with warnings.catch_warnings():
-            if not OLD312a7: # issue 597
-                warnings.filterwarnings('ignore', category=DeprecationWarning)
-            args = (                            # [not counted in args]
-                getattr(obj, 'co_lnotab', b''), # for < python 3.10; 3.15.0b1+
-                obj.co_argcount, obj.co_posonlyargcount,
-                obj.co_kwonlyargcount, obj.co_nlocals, obj.co_stacksize,
-                obj.co_flags, obj.co_code, obj.co_consts, obj.co_names,
-                obj.co_varnames, obj.co_filename, obj.co_name, obj.co_qualname,
-                obj.co_firstlineno, obj.co_linetable, obj.co_exceptiontable,
-                obj.co_freevars, obj.co_cellvars
-            )
+        args = (
+            _get_lnotab(obj), # for < python 3.10 [not counted in args]
+            obj.co_argcount, obj.co_posonlyargcount,
+            obj.co_kwonlyargcount, obj.co_nlocals, obj.co_stacksize,
+            obj.co_flags, obj.co_code, obj.co_consts, obj.co_names,
+            obj.co_varnames, obj.co_filename, obj.co_name, obj.co_qualname,
+            obj.co_firstlineno, obj.co_linetable, obj.co_exceptiontable,
+            obj.co_freevars, obj.co_cellvars
+        )
     elif hasattr(obj, "co_qualname"): # pypy 3.11 7.3.19+ (17 args)
         args = (
             obj.co_lnotab, obj.co_argcount, obj.co_posonlyargcount,
-- 
2.43.0


From bc18041004d8904d9e1b18da36864221c5061ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:05 +0000
Subject: [PATCH 30/45] fix: save sessions with imported objects by reference
 while other threads import modules

---
 dill/session.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dill/session.py b/dill/session.py
index d38c284..53832b4 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -104,12 +104,12 @@ def _module_map():
         by_id=defaultdict(list),
         top_level={},
     )
-    for modname, module in sys.modules.items():
+    for modname, module in list(sys.modules.items()): # may be changed by other threads
         if modname in ('__main__', '__mp_main__') or not isinstance(module, ModuleType):
             continue
         if '.' not in modname:
             modmap.top_level[id(module)] = modname
-        for objname, modobj in module.__dict__.items():
+        for objname, modobj in list(module.__dict__.items()):
             modmap.by_name[objname].append((modobj, modname))
             modmap.by_id[id(modobj)].append((modobj, objname, modname))
     return modmap
@@ -124,13 +124,13 @@ IMPORTED_AS_MODULES = tuple(re.compile(x) for x in IMPORTED_AS_MODULES)
 def _lookup_module(modmap, name, obj, main_module):
     """lookup name or id of obj if module is imported"""
     for modobj, modname in modmap.by_name[name]:
-        if modobj is obj and sys.modules[modname] is not main_module:
+        if modobj is obj and sys.modules.get(modname) is not main_module:
             return modname, name
     __module__ = getattr(obj, '__module__', None)
     if isinstance(obj, IMPORTED_AS_TYPES) or (__module__ is not None
             and any(regex.fullmatch(__module__) for regex in IMPORTED_AS_MODULES)):
         for modobj, objname, modname in modmap.by_id[id(obj)]:
-            if sys.modules[modname] is not main_module:
+            if sys.modules.get(modname) is not main_module:
                 return modname, objname
     return None, None
 
-- 
2.43.0


From 1d0efff8aaa8e59cc58ffb24a97e1441a5ea9ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:05 +0000
Subject: [PATCH 31/45] fix: compare namedtuple classes with a plain one that
 can't be garbage-collected meanwhile

---
 dill/_dill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index dd51fe7..4e13bc3 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1021,7 +1021,8 @@ def _create_namedtuple(name, fieldnames, modulename, defaults=None,
 def _get_namedtuple_attrs(cls):
     """Retrieve what a class has in addition to a namedtuple of the same fields"""
     import collections
-    plain = collections.namedtuple(cls.__name__, cls._fields).__dict__
+    plain = collections.namedtuple(cls.__name__, cls._fields)
+    plain = dict(plain.__dict__) # a garbage-collected class loses its contents
     attrs = {}
     for name, value in cls.__dict__.items():
         if name not in plain:
-- 
2.43.0


From c1779ea51d5e0b28b759774cd5626cad692e0ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:03 +0000
Subject: [PATCH 32/45] fix: find the global names of a code object in its
 instructions, not in their printed form

---
 dill/detect.py | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index 2e1587c..6f3ca56 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -140,32 +140,22 @@ def nestedglobals(func, recurse=True):
     """get the names of any globals found within func"""
     func = code(func)
     if func is None: return list()
-    import sys
-    from io import StringIO
-    CAN_NULL = sys.hexversion >= 0x30b00a7 # NULL may be prepended >= 3.11a7
     names = set()
-    out = StringIO() # don't capture sys.stdout, as it's shared with other threads
     try:
-        dis.dis(func, file=out) #XXX: dis.dis(None) disassembles last traceback
+        ops = [(op.opname, op.argval) for op in dis.get_instructions(func)]
     except IndexError:
-        pass #FIXME: HACK for IS_PYPY (3.11)
-    for line in out.getvalue().splitlines():
-        if '_GLOBAL' in line:
-            name = line.split('(')[-1].split(')')[0]
-            if CAN_NULL:
-                names.add(name.replace('NULL + ', '').replace(' + NULL', ''))
-            else:
-                names.add(name)
+        ops = [] #FIXME: HACK for IS_PYPY (3.11)
     # class bodies (and module code) look up names locally before globally
+    linear = not (getattr(func, 'co_exceptiontable', b'') or any(
+        'JUMP' in op or 'SETUP' in op or op == 'DELETE_NAME' for op,_ in ops))
     stored = set()
-    try:
-        for op in dis.get_instructions(func):
-            if op.opname == 'STORE_NAME':
-                stored.add(op.argval)
-            elif op.opname == 'LOAD_NAME' and op.argval not in stored:
-                names.add(op.argval)
-    except IndexError:
-        pass #FIXME: HACK for IS_PYPY (3.11)
+    for op,name in ops:
+        if '_GLOBAL' in op:
+            names.add(name)
+        elif op == 'LOAD_NAME' and name not in stored:
+            names.add(name)
+        elif op == 'STORE_NAME' and linear:
+            stored.add(name)
     for co in getattr(func, 'co_consts', tuple()):
         if co and recurse and iscode(co):
             names.update(nestedglobals(co, recurse=True))
@@ -202,7 +192,7 @@ def globalvars(func, recurse=True, builtin=False, _seen=None):
         globs.update(orig_func.__globals__ or {})
         # get names of references
         if not recurse:
-            func.update(orig_func.__code__.co_names)
+            func.update(nestedglobals(orig_func.__code__, recurse=False))
         else:
             func.update(nestedglobals(orig_func.__code__))
             # find globals for all entries of func
@@ -216,7 +206,7 @@ def globalvars(func, recurse=True, builtin=False, _seen=None):
         globs = vars(getmodule(sum)).copy() if builtin else {}
        #globs.update(globals())
         if not recurse:
-            func = func.co_names # get names
+            func = nestedglobals(func, recurse=False)
         else:
             orig_func = func.co_name # to stop infinite recursion
             func = set(nestedglobals(func))
-- 
2.43.0


From ef72cee20c45c70fcf7f6f94f1ff836e313ba6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:15 +0000
Subject: [PATCH 33/45] fix: diagnose objects with attributes that can't be
 read, items that can't be compared, and copies of equal value

---
 dill/detect.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index 6f3ca56..1c7a32c 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -239,18 +239,27 @@ def baditems(obj, exact=False, safe=False): #XXX: obj=globals() ?
         return [j for j in (badobjects(obj,0,exact,safe),) if j is not None]
     obj = obj.values() if getattr(obj,'values',None) else obj
     _obj = [] # can't use a set, as items may be unhashable
-    [_obj.append(badobjects(i,0,exact,safe)) for i in obj if i not in _obj]
+    # items may not support comparison, so check for repeats by identity
+    [_obj.append(badobjects(i,0,exact,safe)) for i in obj if not any(i is j for j in _obj)]
     return [j for j in _obj if j is not None]
 
 
+def _attributes(obj):
+    """get (name, value) for the attributes of object that can be read"""
+    for attr in dir(obj):
+        try:
+            yield attr, getattr(obj,attr)
+        except Exception: # has no value, so there's nothing to pickle
+            continue
+
 def badobjects(obj, depth=0, exact=False, safe=False):
     """get objects that fail to pickle"""
     from dill import pickles
     if not depth:
         if pickles(obj,exact,safe): return None
         return obj
-    return dict(((attr, badobjects(getattr(obj,attr),depth-1,exact,safe)) \
-           for attr in dir(obj) if not pickles(getattr(obj,attr),exact,safe)))
+    return dict(((attr, badobjects(_attr,depth-1,exact,safe)) \
+           for attr,_attr in _attributes(obj) if not pickles(_attr,exact,safe)))
 
 def badtypes(obj, depth=0, exact=False, safe=False):
     """get types for objects that fail to pickle"""
@@ -258,13 +267,14 @@ def badtypes(obj, depth=0, exact=False, safe=False):
     if not depth:
         if pickles(obj,exact,safe): return None
         return type(obj)
-    return dict(((attr, badtypes(getattr(obj,attr),depth-1,exact,safe)) \
-           for attr in dir(obj) if not pickles(getattr(obj,attr),exact,safe)))
+    return dict(((attr, badtypes(_attr,depth-1,exact,safe)) \
+           for attr,_attr in _attributes(obj) if not pickles(_attr,exact,safe)))
 
 def errors(obj, depth=0, exact=False, safe=False):
     """get errors for objects that fail to pickle"""
     from dill import pickles, copy
     if not depth:
+        if pickles(obj,exact,safe=True): return None
         try:
             pik = copy(obj)
             if exact:
-- 
2.43.0


From 20174a31cb8dc5e124c504bd117240462dbcef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:49 +0000
Subject: [PATCH 34/45] fix: a copy of a PyCapsule doesn't own what it points
 to, so don't give it the destructor

---
 dill/_dill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 4e13bc3..035bb19 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1063,7 +1063,8 @@ def _create_capsule(pointer, name, context, destructor):
         raise UnpicklingError("%s object exists at %s but a PyCapsule object was expected." % (type(capsule), name))
     else:
         #warnings.warn('Creating a new PyCapsule %s for a C data structure that may not be present in memory. Segmentation faults or other memory errors are possible.' % (name,), UnpicklingWarning)
-        capsule = _PyCapsule_New(pointer, name, destructor)
+        # the original owns what it points to, so the copy must not destroy it
+        capsule = _PyCapsule_New(pointer, name, None)
         _PyCapsule_SetContext(capsule, context)
         return capsule
 
-- 
2.43.0


From 3f3ca8455e51c690b56c645a45292b20efa326b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:42 +0000
Subject: [PATCH 35/45] fix: store and load source with characters beyond
 ascii, and load it in binary mode

---
 dill/temp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dill/temp.py b/dill/temp.py
index 4b9f4e0..c19dada 100644
--- a/dill/temp.py
+++ b/dill/temp.py
@@ -42,7 +42,7 @@ def capture(stream='stdout'):
 
 def b(x): # deal with b'foo' versus 'foo'
     import codecs
-    return codecs.latin_1_encode(x)[0]
+    return codecs.utf_8_encode(x)[0] # the default encoding for python source
 
 def load_source(file, **kwds):
     """load an object that was stored with dill.temp.dump_source
@@ -60,7 +60,10 @@ def load_source(file, **kwds):
     alias = kwds.pop('alias', None)
     mode = kwds.pop('mode', 'r')
     fname = getattr(file, 'name', file) # fname=file.name or fname=file (if str)
-    source = open(fname, mode=mode, **kwds).read()
+    if 'b' not in mode: kwds.setdefault('encoding', 'utf-8') # as in dump_source
+    with open(fname, mode=mode, **kwds) as f:
+        source = f.read()
+    if isinstance(source, bytes): source = source.decode()
     if not alias:
         tag = source.strip().splitlines()[-1].split()
         if tag[0] != '#NAME:':
-- 
2.43.0


From 7c5ac18f8d21084c333bfe7f8d1c4c50d45c1372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:20 +0000
Subject: [PATCH 36/45] fix: find the source of coroutines, and of functions
 with part of another's name

---
 dill/source.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/dill/source.py b/dill/source.py
index b77d9fb..823d138 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -186,14 +186,14 @@ def findsource(object):
     if ismethod(object):
         name = object.__name__
         if name == '<lambda>': pat1 = r'(.*(?<!\w)lambda(:|\s))'
-        else: pat1 = r'^(\s*def\s)'
+        else: pat1 = r'^(\s*(async\s+)?def\s+%s\b)' % re.escape(name)
         object = object.__func__
     if isfunction(object):
         name = object.__name__
         if name == '<lambda>':
             pat1 = r'(.*(?<!\w)lambda(:|\s))'
             obj = object #XXX: better a copy?
-        else: pat1 = r'^(\s*def\s)'
+        else: pat1 = r'^(\s*(async\s+)?def\s+%s\b)' % re.escape(name)
         object = object.__code__
     if istraceback(object):
         object = object.tb_frame
@@ -202,19 +202,17 @@ def findsource(object):
     if iscode(object):
         if not hasattr(object, 'co_firstlineno'):
             raise IOError('could not find function definition')
-        stdin = object.co_filename == '<stdin>'
-        if stdin:
-            lnum = len(lines) - 1 # can't get lnum easily, so leverage pat
-            if not pat1: pat1 = r'^(\s*def\s)|(.*(?<!\w)lambda(:|\s))|^(\s*@)'
-        else:
-            lnum = object.co_firstlineno - 1
-            pat1 = r'^(\s*def\s)|(.*(?<!\w)lambda(:|\s))|^(\s*@)'
+        if object.co_filename != '<stdin>': # co_firstlineno does the job
+            if object.co_firstlineno > len(lines):
+                raise IOError('lineno is out of bounds')
+            return lines, max(object.co_firstlineno - 1, 0)
+        lnum = len(lines) - 1 # can't get lnum easily, so leverage pat
+        if not pat1: pat1 = r'^(\s*(async\s+)?def\s)|(.*(?<!\w)lambda(:|\s))|^(\s*@)'
         pat1 = re.compile(pat1); pat2 = re.compile(pat2)
        #XXX: candidate_lnum = [n for n in range(lnum) if pat1.match(lines[n])]
         while lnum > 0: #XXX: won't find decorators in <stdin> ?
             line = lines[lnum]
             if pat1.match(line):
-                if not stdin: break # co_firstlineno does the job
                 if name == '<lambda>': # hackery needed to confirm a match
                     if _matchlambda(obj, line): break
                 else: # not a lambda, just look for the name
@@ -282,7 +280,7 @@ def getblocks(object, lstrip=False, enclosing=False, locate=False):
         if lstrip: block = _outdent(block)
         return ([block], [lnum]) if locate is True else [block]
 
-    pat1 = r'^(\s*def\s)|(.*(?<!\w)lambda(:|\s))'; pat1 = re.compile(pat1)
+    pat1 = r'^(\s*(async\s+)?def\s)|(.*(?<!\w)lambda(:|\s))'; pat1 = re.compile(pat1)
     pat2 = r'^(\s*@)'; pat2 = re.compile(pat2)
    #pat3 = r'^(\s*class\s)'; pat3 = re.compile(pat3) #XXX: enclosing class?
     #FIXME: bound methods need enclosing class (and then instantiation)
-- 
2.43.0


From 97d4274ad3a94273c40a18e4883f5848eac274b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:08 +0000
Subject: [PATCH 37/45] fix: find the source of a class itself, not of a class
 of the same name

---
 dill/source.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/dill/source.py b/dill/source.py
index 823d138..9f0724f 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -102,6 +102,34 @@ def _matchlambda(func, line):
     return False
 
 
+def _findclass(object, lines):
+    """get the line number of the definition of a class (None, if not found)"""
+    import ast
+    if object.__qualname__.split('.')[-1] != object.__name__: return None
+    try: tree = ast.parse(''.join(lines))
+    except (SyntaxError, ValueError, RecursionError, MemoryError): return None
+    found = []
+    def search(node, prefix):
+        for child in ast.iter_child_nodes(node):
+            if isinstance(child, ast.ClassDef):
+                if prefix + child.name == object.__qualname__:
+                    found.append(child)
+                search(child, prefix + child.name + '.')
+            elif isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef)):
+                search(child, prefix + child.name + '.<locals>.')
+            elif not isinstance(child, ast.expr):
+                search(child, prefix)
+    search(tree, '')
+    if not found: return None
+    # use the definition that contains the code of the methods, or the last
+    codes = [f.__code__ for f in object.__dict__.values() if isfunction(f) and \
+             f.__qualname__.startswith(object.__qualname__ + '.')]
+    best = [node for node in found if any(c.co_filename != '<stdin>' and \
+            node.lineno <= c.co_firstlineno <= node.end_lineno for c in codes)]
+    node = (best or found)[-1]
+    return min(i.lineno for i in [node] + node.decorator_list) - 1
+
+
 def findsource(object):
     """Return the entire source file and starting line number for an object.
     For interactively-defined objects, the 'file' is the interpreter's history.
@@ -232,6 +260,9 @@ def findsource(object):
             #XXX: we don't find how the instance was built
     except AttributeError: pass
     if isclass(object):
+        lnum = _findclass(object, lines)
+        if lnum is not None: return lines, lnum
+        # the source can't be parsed (e.g. interpreter's history)
         name = object.__name__
         pat = re.compile(r'^(\s*)class\s*' + name + r'\b')
         # make some effort to find the best matching class definition:
-- 
2.43.0


From 92d4ac09f011c2b1bf5e413d27af0fd8e86d6b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:53 +0000
Subject: [PATCH 38/45] fix: alias the source of coroutines and of functions
 with lambdas in it

---
 dill/source.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/dill/source.py b/dill/source.py
index 9f0724f..dabb241 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -449,16 +449,14 @@ def getsource(object, alias='', lstrip=False, enclosing=False, \
             for line in lines: # skip lines that are decorators
                 if not line.startswith('@'): break
                 skip += 1
-            #XXX: use regex from findsource / getsourcelines ?
-            if lines[skip].lstrip().startswith('def '): # we have a function
-                if alias != object.__name__:
-                    lines.append('\n%s = %s\n' % (alias, object.__name__))
-            elif 'lambda ' in lines[skip]: # we have a lambda
+            name = getattr(hascode, 'co_name', object.__name__)
+            if name == '<lambda>' and 'lambda' in lines[skip]: # we have a lambda
                 if alias != lines[skip].split('=')[0].strip():
                     lines[skip] = '%s = %s' % (alias, lines[skip])
             else: # ...try to use the object's name
-                if alias != object.__name__:
-                    lines.append('\n%s = %s\n' % (alias, object.__name__))
+                if name == '<lambda>': name = object.__name__
+                if alias != name:
+                    lines.append('\n%s = %s\n' % (alias, name))
         else: # class or class instance
             if instance:
                 if alias != lines[-1].split('=')[0].strip():
-- 
2.43.0


From 2faa6c2c64a762236adff5ca1bb633196ab03489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:13 +0000
Subject: [PATCH 39/45] fix: don't take the source of another lambda or
 function from the history

---
 dill/source.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dill/source.py b/dill/source.py
index dabb241..f754f98 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -60,12 +60,17 @@ def _matchlambda(func, line):
         _ = eval("lambda %s : %s" % (lhs,rhs), globals(),locals())
     except Exception: _ = dummy
     # get code objects, for comparison
-    _, code = getcode(_).co_code, getcode(func).co_code
+    _, code = getcode(_), getcode(func)
+    # names and constants also have to match (except for any nested code)
+    same = _.co_names == code.co_names and _.co_varnames == code.co_varnames \
+           and [repr(i) for i in _.co_consts if not iscode(i)] == \
+               [repr(i) for i in code.co_consts if not iscode(i)]
+    _, code = _.co_code, code.co_code
     # check if func is in closure
     _f = [line.count(i) for i in freevars(func).keys()]
     if not _f: # not in closure
         # check if code matches
-        if _ == code: return True
+        if _ == code and same: return True
         return False
     # weak check on freevars
     if not all(_f): return False  #XXX: VERY WEAK
@@ -238,7 +243,7 @@ def findsource(object):
         if not pat1: pat1 = r'^(\s*(async\s+)?def\s)|(.*(?<!\w)lambda(:|\s))|^(\s*@)'
         pat1 = re.compile(pat1); pat2 = re.compile(pat2)
        #XXX: candidate_lnum = [n for n in range(lnum) if pat1.match(lines[n])]
-        while lnum > 0: #XXX: won't find decorators in <stdin> ?
+        while lnum >= 0: #XXX: won't find decorators in <stdin> ?
             line = lines[lnum]
             if pat1.match(line):
                 if name == '<lambda>': # hackery needed to confirm a match
@@ -252,6 +257,7 @@ def findsource(object):
                         lnum = lnum - hats
                         break
             lnum = lnum - 1
+        if lnum < 0: raise IOError('could not find function definition')
         return lines, lnum
 
     try: # turn instances into classes
-- 
2.43.0


From 45b57484e9e715b9ff65b58512f8443959a070ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:52 +0000
Subject: [PATCH 40/45] fix: don't indent or outdent the lines inside of
 strings

---
 dill/source.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/dill/source.py b/dill/source.py
index f754f98..b8117a3 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -513,6 +513,20 @@ def _isstring(object): #XXX: isstringlike better?
     return isinstance(object, (str, bytes))
 
 
+def _instring(lines):
+    '''get the indices of the lines that start inside of a string'''
+    import tokenize
+    types = (tokenize.STRING, getattr(tokenize, 'FSTRING_MIDDLE', None))
+    lines = iter([line.rstrip('\n')+'\n' for line in lines])
+    inside = set()
+    try:
+        for token in tokenize.generate_tokens(lambda : next(lines, '')):
+            if token.type in types:
+                inside.update(range(token.start[0], token.end[0]))
+    except (TokenError, SyntaxError): pass # not (or not only) python code
+    return inside
+
+
 def indent(code, spaces=4):
     '''indent a block of code with whitespace (default is 4 spaces)'''
     indent = indentsize(code)
@@ -522,24 +536,12 @@ def indent(code, spaces=4):
     nspaces = indentsize(spaces)
     # blank lines (etc) need to be ignored
     lines = code.split('\n')
-##  stq = "'''"; dtq = '"""'
-##  in_stq = in_dtq = False
+    inside = _instring(lines)
     for i in range(len(lines)):
-        #FIXME: works... but shouldn't indent 2nd+ lines of multiline doc
+        if i in inside: continue # 2nd+ lines of multiline strings
         _indent = indentsize(lines[i])
         if indent > _indent: continue
         lines[i] = spaces+lines[i]
-##      #FIXME: may fail when stq and dtq in same line (depends on ordering)
-##      nstq, ndtq = lines[i].count(stq), lines[i].count(dtq)
-##      if not in_dtq and not in_stq:
-##          lines[i] = spaces+lines[i] # we indent
-##          # entering a comment block
-##          if nstq%2: in_stq = not in_stq
-##          if ndtq%2: in_dtq = not in_dtq
-##      # leaving a comment block
-##      elif in_dtq and ndtq%2: in_dtq = not in_dtq
-##      elif in_stq and nstq%2: in_stq = not in_stq
-##      else: pass
     if lines[-1].strip() == '': lines[-1] = ''
     return '\n'.join(lines)
 
@@ -548,8 +550,9 @@ def _outdent(lines, spaces=None, all=True):
     '''outdent lines of code, accounting for docs and line continuations'''
     indent = indentsize(lines[0])
     if spaces is None or spaces > indent or spaces < 0: spaces = indent
+    inside = _instring(lines) if all else ()
     for i in range(len(lines) if all else 1):
-        #FIXME: works... but shouldn't outdent 2nd+ lines of multiline doc
+        if i in inside: continue # 2nd+ lines of multiline strings
         _indent = indentsize(lines[i])
         if spaces > _indent: _spaces = _indent
         else: _spaces = spaces
-- 
2.43.0


From ba88f5a76d03dfe990b1b1390bc80c06eecdedf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:33 +0000
Subject: [PATCH 41/45] fix: find the function that encloses the definition
 itself, not its text

---
 dill/source.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/dill/source.py b/dill/source.py
index b8117a3..4412c7c 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -135,6 +135,26 @@ def _findclass(object, lines):
     return min(i.lineno for i in [node] + node.decorator_list) - 1
 
 
+def _findenclosing(lnum, lines):
+    """get the line number of the outermost function that encloses a line
+    (the line itself, if there's none; or None, if the source can't be parsed)"""
+    import ast
+    try: tree = ast.parse(''.join(lines))
+    except (SyntaxError, ValueError, RecursionError, MemoryError): return None
+    functions = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
+    def search(node):
+        for child in ast.iter_child_nodes(node):
+            first = [child] + getattr(child, 'decorator_list', [])
+            first = min(getattr(i, 'lineno', 0) for i in first) - 1
+            if not first <= lnum < getattr(child, 'end_lineno', len(lines)):
+                continue
+            if isinstance(child, functions): return first
+            first = search(child)
+            if first is not None: return first
+    first = search(tree)
+    return lnum if first is None else first
+
+
 def findsource(object):
     """Return the entire source file and starting line number for an object.
     For interactively-defined objects, the 'file' is the interpreter's history.
@@ -317,6 +337,13 @@ def getblocks(object, lstrip=False, enclosing=False, locate=False):
         if lstrip: block = _outdent(block)
         return ([block], [lnum]) if locate is True else [block]
 
+    line = _findenclosing(lnum, lines)
+    if line is not None:
+        block = getblock(lines[line:])
+        if lstrip: block = _outdent(block)
+        return ([block], [line]) if locate is True else [block]
+
+    # the source can't be parsed (e.g. interpreter's history)
     pat1 = r'^(\s*(async\s+)?def\s)|(.*(?<!\w)lambda(:|\s))'; pat1 = re.compile(pat1)
     pat2 = r'^(\s*@)'; pat2 = re.compile(pat2)
    #pat3 = r'^(\s*class\s)'; pat3 = re.compile(pat3) #XXX: enclosing class?
-- 
2.43.0


From 3a083769c830ff599c003d79fef6963e327d1344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:00 +0000
Subject: [PATCH 42/45] fix: import a closure by its own name, not by that of
 another

---
 dill/source.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dill/source.py b/dill/source.py
index 4412c7c..715725a 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -899,6 +899,16 @@ def _importable(obj, alias='', source=None, enclosing=False, force=True, \
     #XXX: possible failsafe... (for example, for instances when source=False)
     #     "import dill; result = dill.loads(<pickled_object>); # repr(<object>)"
 
+def _holder(func, module, lines):
+    """get the name assigned in one of the lines that holds func in the module"""
+    import sys
+    names = [line.split('=',1)[0].split()[-1].strip() for line in lines]
+    module = getattr(sys.modules.get(module), '__dict__', {})
+    found = [name for name in names if module.get(name) is func]
+    if not found and any(name in module for name in names):
+        raise TypeError('import could not be found')
+    return (found or names)[-1]
+
 def _closuredimport(func, alias='', builtin=False):
     """get import for closured objects; return a dict of 'name' and 'import'"""
     import re
@@ -929,8 +939,7 @@ def _closuredimport(func, alias='', builtin=False):
                 candidate = [line for line in lines \
                              if getname(fobj) in line and re.match(pat, line)]
             if not len(candidate): raise TypeError('import could not be found')
-            candidate = candidate[-1]
-            name = candidate.split('=',1)[0].split()[-1].strip()
+            name = _holder(func, mod, candidate)
             src = _getimport(mod, name, alias=alias, builtin=builtin)
         func_vars[name] = src
     if not func_vars:
@@ -945,8 +954,7 @@ def _closuredimport(func, alias='', builtin=False):
             candidate = [line for line in lines if getname(name) in line and \
                          re.match(r'.*[\w\s]=\s*'+getname(name)+r'\(', line)]
             if not len(candidate): raise TypeError('import could not be found')
-            candidate = candidate[-1]
-            name = candidate.split('=',1)[0].split()[-1].strip()
+            name = _holder(func, mod, candidate)
             src = _getimport(mod, name, alias=alias, builtin=builtin)
         func_vars[name] = src
     return func_vars
-- 
2.43.0


From 521868c8994cba8220303d78e3f0799e04521763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:18 +0000
Subject: [PATCH 43/45] fix: don't import a closure by a name that doesn't hold
 it

---
 dill/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/source.py b/dill/source.py
index 715725a..ed02759 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -905,7 +905,7 @@ def _holder(func, module, lines):
     names = [line.split('=',1)[0].split()[-1].strip() for line in lines]
     module = getattr(sys.modules.get(module), '__dict__', {})
     found = [name for name in names if module.get(name) is func]
-    if not found and any(name in module for name in names):
+    if module and not found:
         raise TypeError('import could not be found')
     return (found or names)[-1]
 
-- 
2.43.0


From 95aba709a44378351a9a82eae55045d200839684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:17 +0000
Subject: [PATCH 44/45] fix: an empty module name doesn't lead to a module

---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 035bb19..d676a6c 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1107,7 +1107,7 @@ def _import_module(import_name, safe=False):
             return __import__(import_name, None, None, [obj])
         else:
             return __import__(import_name)
-    except (ImportError, AttributeError, KeyError):
+    except (ImportError, AttributeError, KeyError, ValueError):
         if safe:
             return None
         raise
-- 
2.43.0


From fa45cd9aa0fcc36e80e530f9adf9d5d0ff1687a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:17 +0000
Subject: [PATCH 45/45] fix: don't import the module a dictionary happens to
 name

---
 dill/_dill.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index d676a6c..53a62c4 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1310,9 +1310,9 @@ def save_module_dict(pickler, obj):
         logger.trace(pickler, "D3: %s", _repr_dict(obj)) # obj
         pickler.write(bytes('c__main__\n__dict__\n', 'UTF-8'))  #XXX: works in general?
         logger.trace(pickler, "# D3")
-    elif '__name__' in obj and obj != _main_module.__dict__ \
+    elif '__name__' in obj and obj is not _main_module.__dict__ \
             and type(obj['__name__']) is str \
-            and obj is getattr(_import_module(obj['__name__'],True), '__dict__', None):
+            and obj is getattr(sys.modules.get(obj['__name__']), '__dict__', None):
         logger.trace(pickler, "D4: %s", _repr_dict(obj)) # obj
         pickler.write(bytes('c%s\n__dict__\n' % obj['__name__'], 'UTF-8'))
         logger.trace(pickler, "# D4")
-- 
2.43.0

