From 8842296e53a12a00194bdf3fa541db0354fe72fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 01/40] fix: a restored free RLock can be acquired

---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index da8aee2..74345f2 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -819,7 +819,7 @@ def _create_lock(locked, *args): #XXX: ignores 'blocking'
 
 def _create_rlock(count, owner, *args): #XXX: ignores 'blocking'
     lock = RLockType()
-    if owner is not None:
+    if count and owner: # restoring the state of a free lock would corrupt it
         lock._acquire_restore((count, owner))
     if owner and not lock._is_owned():
         raise UnpicklingError("Cannot acquire lock")
-- 
2.43.0


From 02e18297542538b4785c93653aaa236ae19db1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 02/40] fix: tracing a dump to a stream that cannot tell its
 position

---
 dill/logger.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dill/logger.py b/dill/logger.py
index a330112..31ca43a 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -151,14 +151,14 @@ class TraceAdapter(logging.LoggerAdapter):
             except AttributeError:
                 # PyPy may use a BytesBuilder as frame
                 size += len(frame)
-        except (AttributeError, TypeError):
+        except (AttributeError, TypeError, OSError, ValueError):
             pass
-        if size is not None:
-            if not pushed_obj:
-                pickler._size_stack.append(size)
-            else:
-                size -= pickler._size_stack.pop()
-                extra['size'] = size
+        if not pushed_obj:
+            pickler._size_stack.append(size)
+        else:
+            start = pickler._size_stack.pop()
+            if size is not None and start is not None:
+                extra['size'] = size - start
         if pushed_obj:
             pickler._trace_depth -= 1
         extra['depth'] = pickler._trace_depth
-- 
2.43.0


From acbbb97fc596869800b77fdf59e4486959633e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 03/40] fix: pickles() restores the warning filters it found

---
 dill/_dill.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 74345f2..fda5f4f 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2187,9 +2187,9 @@ def pickles(obj,exact=False,safe=False,**kwds):
             #FIXME: should be "(pik == obj).all()" for numpy comparison, though that'll fail if shapes differ
             result = bool(pik.all() == obj.all())
         except (AttributeError, TypeError):
-            warnings.filterwarnings('ignore') #FIXME: be specific
-            result = pik == obj
-            if warnings.filters: del warnings.filters[0]
+            with warnings.catch_warnings():
+                warnings.filterwarnings('ignore') #FIXME: be specific
+                result = pik == obj
         if hasattr(result, 'toarray'): # for unusual types like sparse matrix
             result = result.toarray().all()
         if result: return True
-- 
2.43.0


From 7fcd4990740c4f9e6b78d90e032d4d8e4db14193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 04/40] fix: finding a function's globals doesn't redirect
 sys.stdout

---
 dill/detect.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index cdd4287..aa4afe7 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -141,14 +141,14 @@ def nestedglobals(func, recurse=True):
     func = code(func)
     if func is None: return list()
     import sys
-    from .temp import capture
+    from io import StringIO
     CAN_NULL = sys.hexversion >= 0x30b00a7 # NULL may be prepended >= 3.11a7
     names = set()
-    with capture('stdout') as out:
-        try:
-            dis.dis(func) #XXX: dis.dis(None) disassembles last traceback
-        except IndexError:
-            pass #FIXME: HACK for IS_PYPY (3.11)
+    out = StringIO() # don't redirect sys.stdout, as other threads may use it
+    try:
+        dis.dis(func, file=out) #XXX: dis.dis(None) disassembles last traceback
+    except IndexError:
+        pass #FIXME: HACK for IS_PYPY (3.11)
     for line in out.getvalue().splitlines():
         if '_GLOBAL' in line:
             name = line.split('(')[-1].split(')')[0]
-- 
2.43.0


From c7af5d906e102cbf5411b8689372b2de9ee86bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 05/40] fix: dump_module(refimported=True) while modules are
 being imported

---
 dill/session.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dill/session.py b/dill/session.py
index db556c8..e93f150 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -100,12 +100,13 @@ def _module_map():
         by_id=defaultdict(list),
         top_level={},
     )
-    for modname, module in sys.modules.items():
+    # iterate over copies, as another thread may be importing modules
+    for modname, module in list(sys.modules.items()):
         if modname in ('__main__', '__mp_main__') or not isinstance(module, ModuleType):
             continue
         if '.' not in modname:
             modmap.top_level[id(module)] = modname
-        for objname, modobj in module.__dict__.items():
+        for objname, modobj in list(module.__dict__.items()):
             modmap.by_name[objname].append((modobj, modname))
             modmap.by_id[id(modobj)].append((modobj, objname, modname))
     return modmap
-- 
2.43.0


From 54c1ea5ec6de9318d41b85d7f58e03d4dfe2b60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 06/40] fix: saving a code object doesn't touch the warning
 filters

---
 dill/_dill.py | 47 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index fda5f4f..18ef41f 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1165,6 +1165,32 @@ def _save_with_postproc(pickler, reduction, is_pickler_dill=None, obj=Getattr.NO
 #    logger.trace(pickler, "# Co")
 #    return
 
+def _lnotab(code):
+    """get ``code.co_lnotab``, without triggering a warning in python >= 3.12a7"""
+    if OLD312a7:
+        return code.co_lnotab
+    if not hasattr(CodeType, 'co_lnotab'): # 3.15.0b1+
+        return b''
+    # NOTE: don't suppress the warning with the 'warnings' module (issue 597),
+    # as the filters it needs to change are shared with all other threads
+    lnotab = bytearray()
+    offset, lineno = 0, code.co_firstlineno
+    for start, _, line in code.co_lines():
+        if line is None or line == lineno:
+            continue
+        addr, delta = start - offset, line - lineno
+        offset, lineno = start, line
+        while addr > 255:
+            lnotab += b'\xff\x00'
+            addr -= 255
+        while not -128 <= delta <= 127:
+            step = 127 if delta > 0 else -128
+            lnotab += bytes((addr, step & 0xff))
+            addr = 0
+            delta -= step
+        lnotab += bytes((addr, delta & 0xff))
+    return bytes(lnotab)
+
 # The following function is based on 'save_codeobject' from 'cloudpickle'
 # Copyright (c) 2012, Regents of the University of California.
 # Copyright (c) 2009 `PiCloud, Inc. <http://www.picloud.com>`_.
@@ -1184,18 +1210,15 @@ def save_code(pickler, obj):
             obj.co_cellvars
         )
     elif hasattr(obj, "co_exceptiontable"): # python 3.11 (18 args)
-        with warnings.catch_warnings():
-            if not OLD312a7: # issue 597
-                warnings.filterwarnings('ignore', category=DeprecationWarning)
-            args = (                            # [not counted in args]
-                getattr(obj, 'co_lnotab', b''), # for < python 3.10; 3.15.0b1+
-                obj.co_argcount, obj.co_posonlyargcount,
-                obj.co_kwonlyargcount, obj.co_nlocals, obj.co_stacksize,
-                obj.co_flags, obj.co_code, obj.co_consts, obj.co_names,
-                obj.co_varnames, obj.co_filename, obj.co_name, obj.co_qualname,
-                obj.co_firstlineno, obj.co_linetable, obj.co_exceptiontable,
-                obj.co_freevars, obj.co_cellvars
-            )
+        args = (
+            _lnotab(obj), # for < python 3.10 [not counted in args]
+            obj.co_argcount, obj.co_posonlyargcount,
+            obj.co_kwonlyargcount, obj.co_nlocals, obj.co_stacksize,
+            obj.co_flags, obj.co_code, obj.co_consts, obj.co_names,
+            obj.co_varnames, obj.co_filename, obj.co_name, obj.co_qualname,
+            obj.co_firstlineno, obj.co_linetable, obj.co_exceptiontable,
+            obj.co_freevars, obj.co_cellvars
+        )
     elif hasattr(obj, "co_qualname"): # pypy 3.11 7.3.19+ (17 args)
         args = (
             obj.co_lnotab, obj.co_argcount, obj.co_posonlyargcount,
-- 
2.43.0


From 81e84eba5e3ecbe4b6a387270cedeea05eaf1f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 07/40] fix: identify the saved module however the stream
 splits or buffers its data

---
 dill/session.py | 67 ++++++++++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 28 deletions(-)

diff --git a/dill/session.py b/dill/session.py
index e93f150..09d8a9a 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -326,39 +326,53 @@ def dump_session(filename=None, main=None, byref=False, **kwds):
 dump_session.__doc__ = dump_module.__doc__
 
 class _PeekableReader:
-    """lightweight stream wrapper that implements peek()"""
+    """lightweight stream wrapper that can look ahead in any kind of stream"""
     def __init__(self, stream):
         self.stream = stream
+        self.ahead = b''  # what was already read from the stream, but not consumed
     def read(self, n):
-        return self.stream.read(n)
+        data, self.ahead = self.ahead[:n], self.ahead[n:]
+        if len(data) < n:
+            data += self.stream.read(n - len(data))
+        return data
     def readline(self):
-        return self.stream.readline()
+        line, newline, self.ahead = self.ahead.partition(b'\n')
+        return line + newline if newline else line + self.stream.readline()
     def tell(self):
-        return self.stream.tell()
+        return self.stream.tell() - len(self.ahead)
     def close(self):
         return self.stream.close()
-    def peek(self, n):
-        stream = self.stream
-        try:
-            if hasattr(stream, 'flush'): stream.flush()
-            position = stream.tell()
-            stream.seek(position)  # assert seek() works before reading
-            chunk = stream.read(n)
-            stream.seek(position)
-            return chunk
-        except (AttributeError, OSError):
-            raise NotImplementedError("stream is not peekable: %r", stream) from None
+    def lookahead(self):
+        return _Lookahead(self)
+
+class _Lookahead:
+    """read-only view of what follows in a _PeekableReader, without consuming it"""
+    # NOTE: don't request more than is needed, as the stream may not be seekable
+    # (what's after the pickle must stay there) and may have nothing else to read.
+    limit = 8192
+    def __init__(self, reader):
+        self.reader = reader
+        self.position = 0
+    def read(self, n):
+        reader, end = self.reader, self.position + n
+        if end > self.limit:
+            raise ValueError("reached the end of the chunk")
+        if end > len(reader.ahead):
+            reader.ahead += reader.stream.read(end - len(reader.ahead))
+        chunk = reader.ahead[self.position:end]
+        self.position += len(chunk)
+        return chunk
+    def readline(self):
+        line = char = self.read(1)
+        while char and char != b'\n':
+            char = self.read(1)
+            line += char
+        return line
 
 def _make_peekable(stream):
-    """return stream as an object with a peek() method"""
-    import io
-    if hasattr(stream, 'peek'):
+    """return stream as an object with a lookahead() method"""
+    if hasattr(stream, 'lookahead'):
         return stream
-    if not (hasattr(stream, 'tell') and hasattr(stream, 'seek')):
-        try:
-            return io.BufferedReader(stream)
-        except Exception:
-            pass
     return _PeekableReader(stream)
 
 def _identify_module(file, main=None):
@@ -367,7 +381,7 @@ def _identify_module(file, main=None):
     UNICODE = {'UNICODE', 'BINUNICODE', 'SHORT_BINUNICODE'}
     found_import = False
     try:
-        for opcode, arg, pos in genops(file.peek(256)):
+        for opcode, arg, pos in genops(file.lookahead()):
             if not found_import:
                 if opcode.name in ('GLOBAL', 'SHORT_BINUNICODE') and \
                         arg.endswith('_import_module'):
@@ -377,11 +391,8 @@ def _identify_module(file, main=None):
                     return arg
         else:
             raise UnpicklingError("reached STOP without finding main module")
-    except (NotImplementedError, ValueError) as error:
+    except ValueError as error:
         # ValueError occours when the end of the chunk is reached (without a STOP).
-        if isinstance(error, NotImplementedError) and main is not None:
-            # file is not peekable, but we have main.
-            return None
         raise UnpicklingError("unable to identify main module") from error
 
 def load_module(
-- 
2.43.0


From 290a515d12194e641143a443383e74a5cb6b93ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 08/40] fix: load_module_asdict() with the session of a
 module-type object

---
 dill/session.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/dill/session.py b/dill/session.py
index 09d8a9a..44d5398 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -650,22 +650,26 @@ def load_module_asdict(
     try:
         file = _make_peekable(file)
         main_name = _identify_module(file)
-        old_main = sys.modules.get(main_name)
-        main = ModuleType(main_name)
-        if update:
-            if old_main is None:
-                old_main = _import_module(main_name)
-            main.__dict__.update(old_main.__dict__)
+        if main_name.startswith('__runtime__.'):
+            # There's no live module, as module-type objects can't be imported.
+            main = load_module(file, **kwds)
         else:
-            main.__builtins__ = __builtin__
-        sys.modules[main_name] = main
-        load_module(file, **kwds)
+            old_main = sys.modules.get(main_name)
+            main = ModuleType(main_name)
+            if update:
+                if old_main is None:
+                    old_main = _import_module(main_name)
+                main.__dict__.update(old_main.__dict__)
+            else:
+                main.__builtins__ = __builtin__
+            sys.modules[main_name] = main
+            load_module(file, **kwds)
     finally:
         if not hasattr(filename, 'read'):  # if newly opened file
             file.close()
         try:
             if old_main is None:
-                del sys.modules[main_name]
+                sys.modules.pop(main_name, None)
             else:
                 sys.modules[main_name] = old_main
         except NameError:  # failed before setting old_main
-- 
2.43.0


From 21e5e126ff362f464d503735e6488eeb510efde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 09/40] fix: functions of a restored module-type object use its
 namespace

---
 dill/_dill.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 18ef41f..da6ad4d 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2008,7 +2008,7 @@ def save_function(pickler, obj):
         logger.trace(pickler, "F1: %s", obj)
         _recurse = getattr(pickler, '_recurse', None)
         _postproc = getattr(pickler, '_postproc', None)
-        _main_modified = getattr(pickler, '_main_modified', None)
+        _session = getattr(pickler, '_session', None)
         _original_main = getattr(pickler, '_original_main', __builtin__)#'None'
         postproc_list = []
         if _recurse:
@@ -2026,7 +2026,7 @@ def save_function(pickler, obj):
 
             # If the globals is the __dict__ from the module being saved as a
             # session, substitute it by the dictionary being actually saved.
-            if _main_modified and globs_copy is _original_main.__dict__:
+            if _session and globs_copy is _original_main.__dict__:
                 globs_copy = getattr(pickler, '_main', _original_main).__dict__
                 globs = globs_copy
             # If the globals is a module __dict__, do not save it in the pickle.
-- 
2.43.0


From 8e811910a4fda6271c4eb87694ee5fb68c36c126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 10/40] fix: load_module_asdict() of a submodule doesn't update
 the live module

---
 dill/_dill.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index da6ad4d..4002b38 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1062,7 +1062,11 @@ def _import_module(import_name, safe=False):
             items = import_name.split('.')
             module = '.'.join(items[:-1])
             obj = items[-1]
-            submodule = getattr(__import__(module, None, None, [obj]), obj)
+            package = __import__(module, None, None, [obj])
+            # may be temporarily replaced in sys.modules, see load_module_asdict()
+            submodule = sys.modules.get(import_name)
+            if submodule is None or not isinstance(getattr(package, obj, submodule), ModuleType):
+                submodule = getattr(package, obj)
             if isinstance(submodule, (ModuleType, type)):
                 return submodule
             return __import__(import_name, None, None, [obj])
-- 
2.43.0


From a200eb3b76c6fae35d8b6b3e534688df031dd73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 11/40] fix: file contents saved with FILE_FMODE are exact in
 all modes

---
 dill/_dill.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 4002b38..e528fba 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -862,17 +862,14 @@ def _create_filehandle(name, mode, position, closed, open, strictio, fmode, fdat
         # NOTE: has different fileno
         try:
             #FIXME: missing: *buffering*, encoding, softspace
-            if fmode == FILE_FMODE:
-                f = open(name, mode if "w" in mode else "w")
-                f.write(fdata)
-                if "w" not in mode:
-                    f.close()
-                    f = open(name, mode)
-            elif name == '<fdopen>': # file did not exist
+            if fmode == FILE_FMODE: # NOTE: older versions stored a string
+                with open(name, "w" if isinstance(fdata, str) else "wb") as f:
+                    f.write(fdata)
+            if name == '<fdopen>': # file did not exist
                 import tempfile
                 f = tempfile.TemporaryFile(mode)
             # treat x mode as w mode
-            elif fmode == CONTENTS_FMODE \
+            elif fmode in (CONTENTS_FMODE, FILE_FMODE) \
                and ("w" in mode or "x" in mode):
                 # stop truncation when opening
                 flags = os.O_CREAT
@@ -1424,9 +1421,8 @@ def _save_file(pickler, obj, open_):
         else:
             position = obj.tell()
     if is_dill(pickler, child=True) and pickler._fmode == FILE_FMODE:
-        f = open_(obj.name, "r")
-        fdata = f.read()
-        f.close()
+        with open_(obj.name, "rb") as f: # exact contents, whatever the mode
+            fdata = f.read()
     else:
         fdata = ""
     if is_dill(pickler, child=True):
-- 
2.43.0


From a330ff0ab0a3097e3e4afc592168f17cfb06fa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 12/40] fix: a saved weak proxy always refers to its own
 referent

---
 dill/_dill.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index e528fba..b47844f 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1656,24 +1656,36 @@ def save_singleton(pickler, obj):
 def _proxy_helper(obj): # a dead proxy returns a reference to None
     """get memory address of proxy's reference object"""
     _repr = repr(obj)
+    if type(obj) not in (ProxyType, CallableProxyType): return id(obj)
+    if not IS_PYPY: # NOTE: don't use str(obj), as it's up to the referenced object
+        try: return int(_repr.rstrip('>').split(' at ')[-1], base=16)
+        except ValueError: # it's a dead proxy (python >= 3.13)
+            return id(None)
     try: _str = str(obj)
     except ReferenceError: # it's a dead proxy
         return id(None)
-    if _str == _repr: return id(obj) # it's a repr
-    try: # either way, it's a proxy from here
+    try:
         address = int(_str.rstrip('>').split(' at ')[-1], base=16)
     except ValueError: # special case: proxy of a 'type'
-        if not IS_PYPY:
-            address = int(_repr.rstrip('>').split(' at ')[-1], base=16)
-        else:
-            objects = iter(gc.get_objects())
-            for _obj in objects:
-                if repr(_obj) == _str: return id(_obj)
-            # all bad below... nothing found so throw ReferenceError
-            msg = "Cannot reference object for proxy at '%s'" % id(obj)
-            raise ReferenceError(msg)
+        objects = iter(gc.get_objects())
+        for _obj in objects:
+            if repr(_obj) == _str: return id(_obj)
+        # all bad below... nothing found so throw ReferenceError
+        msg = "Cannot reference object for proxy at '%s'" % id(obj)
+        raise ReferenceError(msg)
     return address
 
+def _proxy_referent(obj): # for a dead proxy it's None
+    """get proxy's reference object, which may be collected in the meantime"""
+    while True:
+        address = _proxy_helper(obj)
+        try: refobj = _locate_object(address)
+        except ReferenceError:
+            if address == _proxy_helper(obj): raise
+            continue
+        # another object may have been created at the same memory address
+        if id(refobj) == _proxy_helper(obj): return refobj
+
 def _locate_object(address, module=None):
     """get object located at the given memory address (inverse of id(obj))"""
     special = [None, True, False] #XXX: more...?
@@ -1704,7 +1716,7 @@ def save_weakref(pickler, obj):
 def save_weakproxy(pickler, obj):
     # Must do string substitution here and use %r to avoid ReferenceError.
     logger.trace(pickler, "R2: %r" % obj)
-    refobj = _locate_object(_proxy_helper(obj))
+    refobj = _proxy_referent(obj)
     pickler.save_reduce(_create_weakproxy, (refobj, callable(obj)), obj=obj)
     logger.trace(pickler, "# R2")
     return
-- 
2.43.0


From b623d00ebb01c4543c6cecbec7f1b532f8bf1f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 13/40] fix: views and proxies of any mapping keep referring to
 it

OrderedDict and other mappings merge a dict operand of '|' into a copy,
so that the saved view or mappingproxy was of another mapping.
---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index b47844f..ad388bf 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -929,7 +929,7 @@ class _attrgetter_helper(object):
             attrs[index] = ".".join([attrs[index], attr])
         return type(self)(attrs, index)
 
-class _dictproxy_helper(dict):
+class _dictproxy_helper(object): # not a dict, else it'd be merged in a new OrderedDict
    def __ror__(self, a):
         return a
 
-- 
2.43.0


From 179e2c433185ddd200b4210bc5e13aa1697e1188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 14/40] fix: a restored function keeps its __qualname__

FunctionType() sets it from the code object since Python 3.11, thus it was
lost for functions with a __qualname__ equal to their __name__, such as the
ones decorated with functools.wraps().
---
 dill/_dill.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index ad388bf..cb13443 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2066,7 +2066,9 @@ def save_function(pickler, obj):
             fattr = getattr(obj, fattrname, None)
             if fattr is not None:
                 state_dict[fattrname] = fattr
-        if obj.__qualname__ != obj.__name__:
+        # the default is taken from the code object since Python 3.11
+        default_qualname = getattr(obj.__code__, 'co_qualname', obj.__name__)
+        if obj.__qualname__ != obj.__name__ or obj.__qualname__ != default_qualname:
             state_dict['__qualname__'] = obj.__qualname__
         if '__name__' not in globs or obj.__module__ != globs['__name__']:
             state_dict['__module__'] = obj.__module__
-- 
2.43.0


From 970a3006f563f26663b589232510d2e6a38b0664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 15/40] fix: subclasses of generic and named tuple classes keep
 their bases

The attribute __orig_bases__ was taken from a base class.
---
 dill/_dill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index cb13443..cd2e529 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1924,7 +1924,8 @@ def save_type(pickler, obj, postproc_list=None):
             if qualname is not None:
                 postproc_list.append((setattr, (obj, '__qualname__', qualname)))
 
-            if not hasattr(obj, '__orig_bases__'):
+            # don't use hasattr(), as a subclass may inherit it from its base
+            if '__orig_bases__' not in obj.__dict__:
                 _save_with_postproc(pickler, (_create_type, (
                     type(obj), obj.__name__, obj.__bases__, _dict
                 )), obj=obj, postproc_list=postproc_list)
-- 
2.43.0


From 534041d8f6eddda99500c737bd1d928a7906216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 16/40] fix: a saved named tuple class keeps its methods and
 annotations

---
 dill/_dill.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index cd2e529..358d6c9 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -998,6 +998,20 @@ def _create_namedtuple(name, fieldnames, modulename, defaults=None):
     t = collections.namedtuple(name, fieldnames, defaults=defaults, module=modulename)
     return t
 
+def _namedtuple_attrs(cls):
+    # what was added to the class by typing.NamedTuple or by its author
+    import collections
+    plain = collections.namedtuple(cls.__name__, cls._fields, rename=True).__dict__
+    return {name: value for name, value in cls.__dict__.items()
+            if name not in plain or name == '__doc__' and value != plain[name]}
+
+def _update_namedtuple(cls, attrs):
+    for name, value in attrs.items():
+        if name == '__doc__':
+            cls.__doc__ = value
+        elif name not in cls.__dict__: # may be an existing class
+            setattr(cls, name, value)
+
 def _create_capsule(pointer, name, context, destructor):
     attr_found = False
     try:
@@ -1857,6 +1871,13 @@ def save_type(pickler, obj, postproc_list=None):
                 postproc_list = []
             postproc_list.append((setattr, (obj, '__qualname__', obj_name)))
 
+        if not _locate_function(obj, pickler):
+            attrs = _namedtuple_attrs(obj)
+            if attrs:
+                if postproc_list is None:
+                    postproc_list = []
+                postproc_list.append((_update_namedtuple, (obj, attrs)))
+
         if not obj._field_defaults:
             _save_with_postproc(pickler, (_create_namedtuple, (obj.__name__, obj._fields, obj.__module__)), obj=obj, postproc_list=postproc_list)
         else:
-- 
2.43.0


From ccdb0996dafb84fa9f4481af22f01c0a34661751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 17/40] fix: named tuples with renamed fields can be restored

---
 dill/_dill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 358d6c9..9560f9b 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -995,7 +995,8 @@ def _create_namedtuple(name, fieldnames, modulename, defaults=None):
     if class_ is not None:
         return class_
     import collections
-    t = collections.namedtuple(name, fieldnames, defaults=defaults, module=modulename)
+    # some names may be invalid without rename, if that is how they were created
+    t = collections.namedtuple(name, fieldnames, rename=True, defaults=defaults, module=modulename)
     return t
 
 def _namedtuple_attrs(cls):
-- 
2.43.0


From be125c7db654d1ee9488b97f6b8d78f1a1509b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:17 +0000
Subject: [PATCH 18/40] fix: a failed load_module() leaves the module's
 namespace as it was

---
 dill/session.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dill/session.py b/dill/session.py
index 44d5398..670a736 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -561,7 +561,17 @@ def load_module(
             runtime_main = '__runtime__.%s' % main.__name__
             sys.modules[runtime_main] = main
 
-        loaded = unpickler.load()
+        original = main.__dict__.copy()
+        try:
+            loaded = unpickler.load()
+            assert loaded is main
+            _restore_modules(unpickler, main)
+        except BaseException:
+            # The state may have been applied already (e.g. only STOP is missing).
+            for name in main.__dict__.keys() - original.keys():
+                del main.__dict__[name]
+            main.__dict__.update(original)
+            raise
     finally:
         if not hasattr(filename, 'read'):  # if newly opened file
             file.close()
@@ -569,8 +579,6 @@ def load_module(
             del sys.modules[runtime_main]
         except (KeyError, NameError):
             pass
-    assert loaded is main
-    _restore_modules(unpickler, main)
     if main is _main_module or main is module:
         return None
     else:
-- 
2.43.0


From b8d78933f3d06442b1dc720d0cb9ba2d9c0c8927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 19/40] fix: loading a session from a directory doesn't leak a
 descriptor

---
 dill/session.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dill/session.py b/dill/session.py
index 670a736..7566ee3 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -79,7 +79,11 @@ def _safe_open_for_reading(path):
     """
     _check_symlink(path)
     fd = os.open(path, os.O_RDONLY | _O_NOFOLLOW)
-    return os.fdopen(fd, 'rb')
+    try:
+        return os.fdopen(fd, 'rb')
+    except BaseException: # e.g. path is a directory
+        os.close(fd)
+        raise
 
 _DEFAULT_PATH_WARNING = (
     "using the default session file %r which is in a world-writable "
-- 
2.43.0


From f1f7805caee7d852f62db5062b198ce4f9d7bbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 20/40] fix: a named tuple class isn't mistaken for another
 object with its name

---
 dill/_dill.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 9560f9b..4850712 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -992,7 +992,8 @@ def _create_dtypemeta(scalar_type):
 
 def _create_namedtuple(name, fieldnames, modulename, defaults=None):
     class_ = _import_module(modulename + '.' + name, safe=True)
-    if class_ is not None:
+    if isinstance(class_, type) and class_.__bases__ == (tuple,) \
+            and getattr(class_, '_fields', None) == tuple(fieldnames):
         return class_
     import collections
     # some names may be invalid without rename, if that is how they were created
@@ -1007,10 +1008,12 @@ def _namedtuple_attrs(cls):
             if name not in plain or name == '__doc__' and value != plain[name]}
 
 def _update_namedtuple(cls, attrs):
+    if _import_module(cls.__module__ + '.' + cls.__name__, safe=True) is cls:
+        return # it's an existing class
     for name, value in attrs.items():
         if name == '__doc__':
             cls.__doc__ = value
-        elif name not in cls.__dict__: # may be an existing class
+        else:
             setattr(cls, name, value)
 
 def _create_capsule(pointer, name, context, destructor):
-- 
2.43.0


From bd1feb8775b2036e60684e0ee48cf04a4e967965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:02 +0000
Subject: [PATCH 21/40] fix: load_module_asdict() of a submodule doesn't end up
 in its package

---
 dill/session.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dill/session.py b/dill/session.py
index 7566ee3..1bd6f58 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -666,6 +666,9 @@ def load_module_asdict(
             # There's no live module, as module-type objects can't be imported.
             main = load_module(file, **kwds)
         else:
+            package = main_name.rpartition('.')[0]
+            if package:  # may import the live module
+                __import__(package)
             old_main = sys.modules.get(main_name)
             main = ModuleType(main_name)
             if update:
-- 
2.43.0


From cedae2fdd867db65af547eea168037936e970541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:10 +0000
Subject: [PATCH 22/40] fix: nested tracing blocks restore the previous output
 and level

---
 dill/logger.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dill/logger.py b/dill/logger.py
index 31ca43a..57084ae 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -271,15 +271,18 @@ class TraceManager(contextlib.AbstractContextManager):
                 self.handler = logging.StreamHandler(self.file)
             else:
                 self.handler = logging.FileHandler(self.file, self.mode)
+            # may have been redirected already by an outer block
+            self.stderr_removed = stderr_handler in logger.handlers
             adapter.removeHandler(stderr_handler)
             adapter.addHandler(self.handler)
-        self.old_level = adapter.getEffectiveLevel()
+        self.old_level = logger.level
         adapter.setLevel(logging.INFO)
         return adapter.info
     def __exit__(self, *exc_info):
         adapter.setLevel(self.old_level)
         if self.redirect:
             adapter.removeHandler(self.handler)
-            adapter.addHandler(stderr_handler)
+            if self.stderr_removed:
+                adapter.addHandler(stderr_handler)
             if not self.file_is_stream:
                 self.handler.close()
-- 
2.43.0


From 97a09a1b698d3ed432455e7b652267193aa19b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:16 +0000
Subject: [PATCH 23/40] fix: garbage collection doesn't change how a named
 tuple class is saved

---
 dill/_dill.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 4850712..2815756 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1003,9 +1003,9 @@ def _create_namedtuple(name, fieldnames, modulename, defaults=None):
 def _namedtuple_attrs(cls):
     # what was added to the class by typing.NamedTuple or by its author
     import collections
-    plain = collections.namedtuple(cls.__name__, cls._fields, rename=True).__dict__
+    plain = collections.namedtuple(cls.__name__, cls._fields, rename=True)
     return {name: value for name, value in cls.__dict__.items()
-            if name not in plain or name == '__doc__' and value != plain[name]}
+            if name not in plain.__dict__ or name == '__doc__' and value != plain.__doc__}
 
 def _update_namedtuple(cls, attrs):
     if _import_module(cls.__module__ + '.' + cls.__name__, safe=True) is cls:
-- 
2.43.0


From 47f96cf0d3489b52c9fead2a63e842bccae4443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 24/40] fix: a failure to write the trace doesn't affect the
 pickling

---
 dill/logger.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dill/logger.py b/dill/logger.py
index 57084ae..de3694a 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -135,7 +135,7 @@ class TraceAdapter(logging.LoggerAdapter):
             pickler._trace_depth = None
     def trace(self, pickler, msg, *args, **kwargs):
         if not hasattr(pickler, '_trace_depth'):
-            logger.info(msg, *args, **kwargs)
+            self._trace_info(msg, *args, **kwargs)
             return
         if pickler._trace_depth is None:
             return
@@ -163,9 +163,14 @@ class TraceAdapter(logging.LoggerAdapter):
             pickler._trace_depth -= 1
         extra['depth'] = pickler._trace_depth
         kwargs['extra'] = extra
-        self.info(msg, *args, **kwargs)
+        self._trace_info(msg, *args, **kwargs)
         if not pushed_obj:
             pickler._trace_depth += 1
+    def _trace_info(self, msg, *args, **kwargs):
+        try:
+            self.info(msg, *args, **kwargs)
+        except Exception:
+            pass  # a failure to write the trace must not affect the pickling
 
 class TraceFormatter(logging.Formatter):
     """
-- 
2.43.0


From b01af7c18e0eb23fcc297cd52c45af52ee9f2a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:27 +0000
Subject: [PATCH 25/40] fix: source code with non-ascii characters stored in
 temporary files

---
 dill/temp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dill/temp.py b/dill/temp.py
index 4b9f4e0..4aa2549 100644
--- a/dill/temp.py
+++ b/dill/temp.py
@@ -41,8 +41,7 @@ def capture(stream='stdout'):
 
 
 def b(x): # deal with b'foo' versus 'foo'
-    import codecs
-    return codecs.latin_1_encode(x)[0]
+    return x.encode('utf-8') # the default encoding of source code
 
 def load_source(file, **kwds):
     """load an object that was stored with dill.temp.dump_source
@@ -59,6 +58,7 @@ def load_source(file, **kwds):
     """
     alias = kwds.pop('alias', None)
     mode = kwds.pop('mode', 'r')
+    if 'b' not in mode: kwds.setdefault('encoding', 'utf-8')
     fname = getattr(file, 'name', file) # fname=file.name or fname=file (if str)
     source = open(fname, mode=mode, **kwds).read()
     if not alias:
-- 
2.43.0


From 3a864a52553120ca7319e9fec24796bbe9ac4eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:27 +0000
Subject: [PATCH 26/40] fix: temporary files are removed if they can't be
 written

---
 dill/temp.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/dill/temp.py b/dill/temp.py
index 4aa2549..7e3f868 100644
--- a/dill/temp.py
+++ b/dill/temp.py
@@ -43,6 +43,15 @@ def capture(stream='stdout'):
 def b(x): # deal with b'foo' versus 'foo'
     return x.encode('utf-8') # the default encoding of source code
 
+def _discard(file): # remove a temporary file that could not be written
+    import os
+    try:
+        file.close()
+    except OSError: # can't flush
+        pass
+    if os.path.exists(file.name):
+        os.remove(file.name)
+
 def load_source(file, **kwds):
     """load an object that was stored with dill.temp.dump_source
 
@@ -112,9 +121,14 @@ NOTE: Keep the return value for as long as you want your file to exist !
     name = str(alias) or getname(object)
     name = "\n#NAME: %s\n" % name
     #XXX: assumes kwds['dir'] is writable and on $PYTHONPATH
+    source = b(''.join([importable(object, alias=alias),name]))
     file = tempfile.NamedTemporaryFile(suffix='.py', **kwds)
-    file.write(b(''.join([importable(object, alias=alias),name])))
-    file.flush()
+    try:
+        file.write(source)
+        file.flush()
+    except BaseException:
+        _discard(file)
+        raise
     return file
 
 def load(file, **kwds):
@@ -160,8 +174,12 @@ NOTE: Keep the return value for as long as you want your file to exist !
     import tempfile
     kwds.setdefault('delete', True)
     file = tempfile.NamedTemporaryFile(**kwds)
-    pickle.dump(object, file)
-    file.flush()
+    try:
+        pickle.dump(object, file)
+        file.flush()
+    except BaseException:
+        _discard(file)
+        raise
     return file
 
 def loadIO(buffer, **kwds):
-- 
2.43.0


From 4150eee8533b967bb774992da45a85c3d928d7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:32 +0000
Subject: [PATCH 27/40] fix: switching dill's types in and out of pickle's
 registry from several threads

---
 dill/_dill.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 2815756..7209278 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -485,9 +485,10 @@ def _revert_extension():
     """drop dill-registered types from pickle's dispatch table"""
     for type, func in list(StockPickler.dispatch.items()):
         if func.__module__ == __name__:
-            del StockPickler.dispatch[type]
             if type in pickle_dispatch_copy:
                 StockPickler.dispatch[type] = pickle_dispatch_copy[type]
+            else:
+                StockPickler.dispatch.pop(type, None)
 
 def use_diff(on=True):
     """
@@ -2316,7 +2317,7 @@ def is_dill(pickler, child=None):
 def _extend():
     """extend pickle with all of dill's registered types"""
     # need to have pickle not choke on _main_module?  use is_dill(pickler)
-    for t,func in Pickler.dispatch.items():
+    for t,func in list(Pickler.dispatch.items()):
         try:
             StockPickler.dispatch[t] = func
         except Exception: #TypeError, PicklingError, UnpicklingError
-- 
2.43.0


From 3d638111cbe692deddb9a68036892feab505dde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:38 +0000
Subject: [PATCH 28/40] fix: copies of the namespace of a module aren't saved
 as the namespace itself

---
 dill/_dill.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 7209278..d3fc740 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1286,16 +1286,17 @@ def _repr_dict(obj):
 
 @register(dict)
 def save_module_dict(pickler, obj):
-    if is_dill(pickler, child=False) and obj == pickler._main.__dict__ and \
+    #NOTE: a copy of the namespace is equal to it, but has to be saved as a dict
+    if is_dill(pickler, child=False) and obj is pickler._main.__dict__ and \
             not (pickler._session and pickler._first_pass):
         logger.trace(pickler, "D1: %s", _repr_dict(obj)) # obj
         pickler.write(bytes('c__builtin__\n__main__\n', 'UTF-8'))
         logger.trace(pickler, "# D1")
-    elif (not is_dill(pickler, child=False)) and (obj == _main_module.__dict__):
+    elif (not is_dill(pickler, child=False)) and (obj is _main_module.__dict__):
         logger.trace(pickler, "D3: %s", _repr_dict(obj)) # obj
         pickler.write(bytes('c__main__\n__dict__\n', 'UTF-8'))  #XXX: works in general?
         logger.trace(pickler, "# D3")
-    elif '__name__' in obj and obj != _main_module.__dict__ \
+    elif '__name__' in obj and obj is not _main_module.__dict__ \
             and type(obj['__name__']) is str \
             and obj is getattr(_import_module(obj['__name__'],True), '__dict__', None):
         logger.trace(pickler, "D4: %s", _repr_dict(obj)) # obj
-- 
2.43.0


From 7ee733adab3423820be12782a2e06ccda649593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:38 +0000
Subject: [PATCH 29/40] fix: references to the namespace inside of a session
 saved with refimported=True

---
 dill/_dill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index d3fc740..bcf833c 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1287,7 +1287,8 @@ def _repr_dict(obj):
 @register(dict)
 def save_module_dict(pickler, obj):
     #NOTE: a copy of the namespace is equal to it, but has to be saved as a dict
-    if is_dill(pickler, child=False) and obj is pickler._main.__dict__ and \
+    if is_dill(pickler, child=False) and (obj is pickler._main.__dict__ or
+            pickler._session and obj is pickler._original_main.__dict__) and \
             not (pickler._session and pickler._first_pass):
         logger.trace(pickler, "D1: %s", _repr_dict(obj)) # obj
         pickler.write(bytes('c__builtin__\n__main__\n', 'UTF-8'))
-- 
2.43.0


From 6760fcb6811d530c3ffa3f7c92dcd546452ad83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:53 +0000
Subject: [PATCH 30/40] fix: numbers and strings that an imported module has
 too aren't saved by reference

---
 dill/session.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dill/session.py b/dill/session.py
index 1bd6f58..1cad15f 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -150,6 +150,7 @@ def _stash_modules(main_module):
             original[name] = newmod.__dict__
         # Avoid incorrectly matching a singleton value in another package (ex.: __doc__).
         elif any(obj is singleton for singleton in (None, False, True)) \
+                or type(obj) in (int, str, bytes) or type(obj) is tuple and not obj \
                 or isinstance(obj, ModuleType) and _is_builtin_module(obj):  # always saved by ref
             original[name] = obj
         else:
-- 
2.43.0


From 2a4a8db99062d863d734864d8761ecfce46fe0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:45 +0000
Subject: [PATCH 31/40] fix: classes with private names in __slots__

---
 dill/_dill.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index bcf833c..b6a6a0b 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1937,6 +1937,10 @@ def save_type(pickler, obj, postproc_list=None):
                 slots = (slots,)
 
             for name in slots:
+                if name.startswith('__') and not name.endswith('__'):
+                    # private names are mangled
+                    stripped = obj.__name__.lstrip('_')
+                    name = '_%s%s' % (stripped, name) if stripped else name
                 _dict.pop(name, None)
 
             if isinstance(obj, abc.ABCMeta):
-- 
2.43.0


From d383a72b3d0d25e1aa02b7c956cdc6e671358b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:09 +0000
Subject: [PATCH 32/40] fix: classes that define __eq__ and inherit __hash__
 explicitly

---
 dill/_dill.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index b6a6a0b..f2d7194 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1826,6 +1826,8 @@ def _get_typedict_type(cls, clsdict, attrs, postproc_list):
     for name, value in dict.items(clsdict):
         try:
             base_value = inherited_dict[name]
+            if name == '__hash__' and '__eq__' in clsdict:
+                continue # would be set to None if not explicitly inherited
             if value is base_value and hasattr(value, '__qualname__'):
                 to_remove.append(name)
         except KeyError:
-- 
2.43.0


From ba39bbd6a7c08396f1b0beb27f745e57be54b42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:35 +0000
Subject: [PATCH 33/40] fix: a class attribute that selects the method of one
 of several base classes

---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index f2d7194..43589aa 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1820,7 +1820,7 @@ def _get_typedict_type(cls, clsdict, attrs, postproc_list):
         inherited_dict = cls.__bases__[0].__dict__
     else:
         inherited_dict = {}
-        for base in reversed(cls.__bases__):
+        for base in reversed(cls.__mro__[1:]):
             inherited_dict.update(base.__dict__)
     to_remove = []
     for name, value in dict.items(clsdict):
-- 
2.43.0


From 9634a33b5f9d8e5251ea8d091ff0a18cf812f2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:21 +0000
Subject: [PATCH 34/40] fix: functions whose docstring was removed

---
 dill/_dill.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index 43589aa..7f99aca 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2101,6 +2101,8 @@ def save_function(pickler, obj):
             fattr = getattr(obj, fattrname, None)
             if fattr is not None:
                 state_dict[fattrname] = fattr
+        if obj.__doc__ is None and type(next(iter(obj.__code__.co_consts), None)) is str:
+            state_dict['__doc__'] = None # deleted, the default is the first constant
         # the default is taken from the code object since Python 3.11
         default_qualname = getattr(obj.__code__, 'co_qualname', obj.__name__)
         if obj.__qualname__ != obj.__name__ or obj.__qualname__ != default_qualname:
-- 
2.43.0


From ca1e54b34cb4bafb9aad55e509be974ca28103ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:46 +0000
Subject: [PATCH 35/40] fix: restore sys.modules after loading a session even
 if closing the file fails

---
 dill/session.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dill/session.py b/dill/session.py
index 1cad15f..faa64c8 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -578,12 +578,12 @@ def load_module(
             main.__dict__.update(original)
             raise
     finally:
-        if not hasattr(filename, 'read'):  # if newly opened file
-            file.close()
         try:
             del sys.modules[runtime_main]
         except (KeyError, NameError):
             pass
+        if not hasattr(filename, 'read'):  # if newly opened file
+            file.close()
     if main is _main_module or main is module:
         return None
     else:
@@ -681,8 +681,6 @@ def load_module_asdict(
             sys.modules[main_name] = main
             load_module(file, **kwds)
     finally:
-        if not hasattr(filename, 'read'):  # if newly opened file
-            file.close()
         try:
             if old_main is None:
                 sys.modules.pop(main_name, None)
@@ -690,6 +688,8 @@ def load_module_asdict(
                 sys.modules[main_name] = old_main
         except NameError:  # failed before setting old_main
             pass
+        if not hasattr(filename, 'read'):  # if newly opened file
+            file.close()
     main.__session__ = str(filename)
     return main.__dict__
 
-- 
2.43.0


From dd6822afcf01b740d1e7611d69fdcbde45387b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:49 +0000
Subject: [PATCH 36/40] fix: tracing a dump to a stream whose tell() raises any
 other error

---
 dill/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/logger.py b/dill/logger.py
index de3694a..bfcb0a2 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -151,7 +151,7 @@ class TraceAdapter(logging.LoggerAdapter):
             except AttributeError:
                 # PyPy may use a BytesBuilder as frame
                 size += len(frame)
-        except (AttributeError, TypeError, OSError, ValueError):
+        except Exception:
             pass
         if not pushed_obj:
             pickler._size_stack.append(size)
-- 
2.43.0


From c2698316de5ba717424b02288fbbbfd29b5a3f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:55 +0000
Subject: [PATCH 37/40] fix: a KeyError raised by an import makes restoring a
 session by reference fail, not end silently

---
 dill/session.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/dill/session.py b/dill/session.py
index faa64c8..0aeb1e7 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -179,15 +179,13 @@ def _stash_modules(main_module):
         return main_module
 
 def _restore_modules(unpickler, main_module):
-    try:
-        for modname, name in main_module.__dict__.pop('__dill_imported'):
-            main_module.__dict__[name] = unpickler.find_class(modname, name)
-        for modname, objname, name in main_module.__dict__.pop('__dill_imported_as'):
-            main_module.__dict__[name] = unpickler.find_class(modname, objname)
-        for modname, name in main_module.__dict__.pop('__dill_imported_top_level'):
-            main_module.__dict__[name] = __import__(modname)
-    except KeyError:
-        pass
+    # a KeyError raised by an import is a failure; absent lists are not
+    for modname, name in main_module.__dict__.pop('__dill_imported', ()):
+        main_module.__dict__[name] = unpickler.find_class(modname, name)
+    for modname, objname, name in main_module.__dict__.pop('__dill_imported_as', ()):
+        main_module.__dict__[name] = unpickler.find_class(modname, objname)
+    for modname, name in main_module.__dict__.pop('__dill_imported_top_level', ()):
+        main_module.__dict__[name] = __import__(modname)
 
 #NOTE: 06/03/15 renamed main_module to main
 def dump_module(
-- 
2.43.0


From 17dbf3b7f04ff43a887fedf538a4ec86fa57153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:32 +0000
Subject: [PATCH 38/40] fix: saving a class by name warns without calling the
 repr() of its metaclass, which may raise

---
 dill/_dill.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 7f99aca..84fe64d 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1983,14 +1983,14 @@ def save_type(pickler, obj, postproc_list=None):
             logger.trace(pickler, "T4: %s", obj)
             if incorrectly_named:
                 warnings.warn(
-                    "Cannot locate reference to %r." % (obj,),
+                    "Cannot locate reference to %s." % type.__repr__(obj),
                     PicklingWarning,
                     stacklevel=3,
                 )
             if obj_recursive:
                 warnings.warn(
-                    "Cannot pickle %r: %s.%s has recursive self-references that "
-                    "trigger a RecursionError." % (obj, obj.__module__, obj_name),
+                    "Cannot pickle %s: %s.%s has recursive self-references that "
+                    "trigger a RecursionError." % (type.__repr__(obj), obj.__module__, obj_name),
                     PicklingWarning,
                     stacklevel=3,
                 )
-- 
2.43.0


From 0193d8b934728e138e92653e8e784683ed54e1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:43 +0000
Subject: [PATCH 39/40] fix: restore module-type objects of one name in several
 threads

load_module() put the module-type object it restores in sys.modules under
'__runtime__.<name>', where another thread that restored the session of a
module of the same name replaced or removed it, so that load_module() raised
KeyError or AssertionError (after changing the other thread's module).
---
 dill/_dill.py   | 6 +++++-
 dill/session.py | 7 ++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 84fe64d..71e03ed 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -44,6 +44,7 @@ log = logger # backward compatibility (see issue #582)
 
 import os
 import sys
+import threading
 diff = None
 _use_diff = False
 OLD38 = (sys.hexversion < 0x3080000)
@@ -1070,10 +1071,13 @@ def _get_attr(self, name):
     # stop recursive pickling
     return getattr(self, name, None) or getattr(__builtin__, name)
 
+# module-type objects that are being restored by each thread, see load_module()
+_runtime_modules = threading.local()
+
 def _import_module(import_name, safe=False):
     try:
         if import_name.startswith('__runtime__.'):
-            return sys.modules[import_name]
+            return _runtime_modules.__dict__[import_name]
         elif '.' in import_name:
             items = import_name.split('.')
             module = '.'.join(items[:-1])
diff --git a/dill/session.py b/dill/session.py
index 0aeb1e7..4af9dea 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -36,6 +36,7 @@ from dill import _dill, Pickler, Unpickler
 from ._dill import (
     BuiltinMethodType, FunctionType, MethodType, ModuleType, TypeType,
     _import_module, _is_builtin_module, _is_imported_module, _main_module,
+    _runtime_modules,
     _reverse_typemap, __builtin__, UnpicklingError,
 )
 
@@ -559,10 +560,10 @@ def load_module(
             if main.__name__ != pickle_main:
                 raise ValueError(error_msg.format("", "", "", "") % (main.__name__, pickle_main))
 
-        # This is for find_class() to be able to locate it.
+        # This is for _import_module() to be able to locate it.
         if not is_main_imported:
             runtime_main = '__runtime__.%s' % main.__name__
-            sys.modules[runtime_main] = main
+            _runtime_modules.__dict__[runtime_main] = main
 
         original = main.__dict__.copy()
         try:
@@ -577,7 +578,7 @@ def load_module(
             raise
     finally:
         try:
-            del sys.modules[runtime_main]
+            del _runtime_modules.__dict__[runtime_main]
         except (KeyError, NameError):
             pass
         if not hasattr(filename, 'read'):  # if newly opened file
-- 
2.43.0


From 939056d206feb130f03d97c5313dd82519da15dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:43 +0000
Subject: [PATCH 40/40] fix: load_module_asdict() in several threads

Two threads that loaded sessions of the same module replaced it in sys.modules
at the same time: loads failed with an AssertionError, and the last to finish
left the other's scratch module in sys.modules instead of the live module.
---
 dill/session.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/dill/session.py b/dill/session.py
index 4af9dea..7ff3b78 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -25,6 +25,7 @@ import sys
 import warnings
 import pathlib
 import tempfile
+import threading
 
 TEMPDIR = pathlib.PurePath(tempfile.gettempdir())
 SESSION_TEMPFILE = str(TEMPDIR/'session.pkl')
@@ -594,6 +595,9 @@ def load_session(filename=None, main=None, **kwds):
     load_module(filename, module=main, **kwds)
 load_session.__doc__ = load_module.__doc__
 
+# held while load_module_asdict() replaces a module in sys.modules
+_replacing_main = threading.RLock()
+
 def load_module_asdict(
     filename: Union[str, os.PathLike] = None,
     update: bool = False,
@@ -669,24 +673,24 @@ def load_module_asdict(
             package = main_name.rpartition('.')[0]
             if package:  # may import the live module
                 __import__(package)
-            old_main = sys.modules.get(main_name)
-            main = ModuleType(main_name)
-            if update:
-                if old_main is None:
-                    old_main = _import_module(main_name)
-                main.__dict__.update(old_main.__dict__)
-            else:
-                main.__builtins__ = __builtin__
-            sys.modules[main_name] = main
-            load_module(file, **kwds)
+            with _replacing_main: # as others may be loading the same module
+                old_main = sys.modules.get(main_name)
+                main = ModuleType(main_name)
+                if update:
+                    if old_main is None:
+                        old_main = _import_module(main_name)
+                    main.__dict__.update(old_main.__dict__)
+                else:
+                    main.__builtins__ = __builtin__
+                try:
+                    sys.modules[main_name] = main
+                    load_module(file, **kwds)
+                finally:
+                    if old_main is None:
+                        sys.modules.pop(main_name, None)
+                    else:
+                        sys.modules[main_name] = old_main
     finally:
-        try:
-            if old_main is None:
-                sys.modules.pop(main_name, None)
-            else:
-                sys.modules[main_name] = old_main
-        except NameError:  # failed before setting old_main
-            pass
         if not hasattr(filename, 'read'):  # if newly opened file
             file.close()
     main.__session__ = str(filename)
-- 
2.43.0

