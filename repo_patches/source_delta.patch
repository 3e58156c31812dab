From f99b8b1b7da16052d01b21a95b5278c2bec18f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:55 +0000
Subject: [PATCH 01/28] fix: a first read of a dim or shape overwrote a
 concurrent assignment

---
 asta/dims.py   | 7 +++----
 asta/shapes.py | 8 +++-----
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/asta/dims.py b/asta/dims.py
index db7b5aa..b1499e6 100644
--- a/asta/dims.py
+++ b/asta/dims.py
@@ -47,11 +47,10 @@ class Dimensions:
 
         # Handle everything else as a symbol.
         symbol = symbols(name)
-        if symbol not in self.symbol_map:
-            self.symbol_map[symbol] = None
-            return symbol
 
-        value: Optional[int] = self.symbol_map[symbol]
+        # A single map operation, so that a first read can't overwrite a value
+        # which is assigned by another thread in the meantime.
+        value: Optional[int] = self.symbol_map.setdefault(symbol, None)
         if value is None:
             return symbol
         assert isinstance(value, int)
diff --git a/asta/shapes.py b/asta/shapes.py
index 93af60e..5c8d7ca 100644
--- a/asta/shapes.py
+++ b/asta/shapes.py
@@ -41,11 +41,9 @@ class Shapes:
             attr = globals()[name]
             return attr
 
-        if name in self.placeholder_map:
-            return self.placeholder_map[name]
-        placeholder = Placeholder(name)
-        self.placeholder_map[name] = placeholder
-        return placeholder
+        # A single map operation, so that a first read can't overwrite a value
+        # which is assigned by another thread in the meantime.
+        return self.placeholder_map.setdefault(name, Placeholder(name))
 
     def __setattr__(self, name: str, value: Any) -> None:
         """ Maps attributes to values. Only if we are initialised. """
-- 
2.43.0


From 3b1bd80232ea8544d88314167a6477b023114c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:55 +0000
Subject: [PATCH 02/28] fix: ASTA_TYPECHECK=0 at one decoration switched
 checking off for the whole process

---
 asta/decorators.py | 4 +---
 asta/warning.py    | 5 ++---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index 21b9e55..1f0840b 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -83,9 +83,7 @@ def typechecked(decorated):  # type: ignore[no-untyped-def]
         The decorated version of ``decorated``.
     """
     ox: Oxentiel = get_ox()
-    if "ASTA_TYPECHECK" in os.environ:
-        ox.on = ox.on and os.environ["ASTA_TYPECHECK"] == "1"
-    if not ox.on:
+    if not ox.on or os.environ.get("ASTA_TYPECHECK", "1") != "1":
         return decorated
 
     # Treat classes.
diff --git a/asta/warning.py b/asta/warning.py
index c04496e..3b11de5 100644
--- a/asta/warning.py
+++ b/asta/warning.py
@@ -11,9 +11,8 @@ from asta.constants import Color
 # pylint: disable=invalid-name
 
 ox: Oxentiel = get_ox()
-if "ASTA_TYPECHECK" in os.environ:
-    ox.on = ox.on and os.environ["ASTA_TYPECHECK"] == "1"
-if ox.on and not ox.print_passes:
+ON = ox.on and os.environ.get("ASTA_TYPECHECK", "1") == "1"
+if ON and not ox.print_passes:
     BORDER = "#" * 100
     BORDER = f"{Color.BOLD}{BORDER}{Color.END}"
     INNER = "-" * 100
-- 
2.43.0


From 5ea043c83e83528750d4a9e2e26d150c89411e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:55 +0000
Subject: [PATCH 03/28] fix: typechecked rejected every array annotated with
 Array[str], Array[bytes] or Array[object]

---
 asta/origins.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 6e55b89..a7643ca 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -119,6 +119,11 @@ def refresh(
     else:
         refreshed_annotation = annotation
 
+    # Subscripting with a numpy dtype doesn't restore the kind of an unsized
+    # dtype, e.g. ``Array[str]``.
+    if refreshed_annotation is not annotation and hasattr(annotation, "kind"):
+        refreshed_annotation.kind = annotation.kind
+
     return refreshed_annotation, initialized
 
 
-- 
2.43.0


From fd94ca93825c1bde3b44c239fdac00b82f22613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 04/28] fix: sizes after '...' were only looked for at their
 first occurrence

---
 asta/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/asta/utils.py b/asta/utils.py
index 9c74f65..5638a32 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -90,8 +90,15 @@ def shapecheck(
         ishape = inst_shape
         for i, frag in enumerate(frags):
 
+            # The last fragment can only be at the end of ``ishape`` if '...' is
+            # not the last element of ``cls_shape``.
+            start = 0
+            if i == len(frags) - 1 and not right_bookend:
+                start = max(len(ishape) - len(frag), 0)
+
             # Look for ``frag`` in ``ishape``, and find starting index.
-            is_sub, index, equations = is_subtuple(frag, ishape, equations)
+            is_sub, index, equations = is_subtuple(frag, ishape[start:], equations)
+            index += start
 
             # Must have ``frag`` contained in ``ishape``.
             if not is_sub:
-- 
2.43.0


From 2ef0f955fe0566beae2fac197bca7dfd77ff0270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:54 +0000
Subject: [PATCH 05/28] fix: symbols and dims beside '...' or -1 raised
 AssertionError, failed positions kept their equations

---
 asta/utils.py | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/asta/utils.py b/asta/utils.py
index 5638a32..ee8d4ba 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -222,9 +222,10 @@ def is_subtuple(
     assert isinstance(sub, tuple)
     assert isinstance(tup, tuple)
     for i in range(len(tup) - len(sub) + 1):
-        equal, equations = check_equal(sub, tup[i : i + len(sub)], equations)
-        if equal:
-            return True, i, equations
+        # Don't keep equations from positions which don't match.
+        equal, new_equations = check_equal(sub, tup[i : i + len(sub)], set(equations))
+        if equal and astasolver(new_equations)[0]:
+            return True, i, new_equations
     return False, -1, equations
 
 
@@ -233,26 +234,14 @@ def split(
     elem: Union[int, EllipsisType],  # type: ignore[valid-type]
 ) -> List[Tuple[int, ...]]:
     """ Split on an element. """
-    shape_list = list(shape)
-    tokens: List[str] = []
-    for num in shape_list:
+    fragments: List[Tuple[int, ...]] = [()]
+    for num in shape:
         if num == elem:
-            tokens.append("@")
+            fragments.append(())
         else:
-            assert isinstance(num, int)
-            tokens.append(str(num))
-    seq: str = ",".join(tokens)
-    comma_fragments: List[str] = seq.split("@")
-
-    result: List[Tuple[int, ...]] = []
-    for frag in comma_fragments:
-        if frag:
-            frag_tokens = [token for token in frag.split(",") if token]
-            frag_nums = [int(token) for token in frag_tokens]
-            frag_tuple = tuple(frag_nums)
-            result.append(frag_tuple)
-
-    return result
+            fragments[-1] += (num,)
+
+    return [frag for frag in fragments if frag]
 
 
 def check_equal(
-- 
2.43.0


From 1f4009fe0d5756504f1b2359fe2c8efc90e9abf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 06/28] fix: calls with Callable, Type, Literal or other
 generic annotations always raised

---
 asta/origins.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index a7643ca..1620d94 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -210,7 +210,7 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
     if not callable(value):
         fail_callable(name, annotation, qualified_name(value), ox)
 
-    if annotation.__args__:
+    if getattr(annotation, "__args__", None):
         try:
             signature = inspect.signature(value)
         except (TypeError, ValueError):
@@ -550,12 +550,13 @@ def check_annotation(
         equations = check_asta(name, value, annotation, equations, ox)
 
     elif origin is not None:
-        checker_function_map = ORIGIN_TYPE_CHECKERS
-        if ox.check_non_asta_types:
-            checker_function_map.update(NON_ASTA_CHECKERS)  # type: ignore
-        checker_fn: Callable = checker_function_map[origin]
+        checker_fn: Any = ORIGIN_TYPE_CHECKERS.get(origin)
+        non_asta_checker_fn: Any = NON_ASTA_CHECKERS.get(origin)
         if checker_fn:
             equations = checker_fn(name, value, annotation, equations, ox)
+        elif non_asta_checker_fn:
+            if ox.check_non_asta_types:
+                non_asta_checker_fn(name, value, annotation, ox)
         else:
             equations = check_annotation(name, value, origin, equations, ox)
     elif inspect.isclass(annotation):
-- 
2.43.0


From 944dd13e1325d2230c708babf5b590fddcd2453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 07/28] fix: calls with bare List, Dict, Sequence or Set
 annotations always raised

---
 asta/origins.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 1620d94..ea5ca59 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -321,6 +321,12 @@ def check_tuple(
     return equations
 
 
+def has_type_args(annotation: Any) -> bool:
+    """ Determine if a generic annotation has arguments (``List`` doesn't). """
+    args = getattr(annotation, "__args__", None)
+    return args not in (None, getattr(annotation, "__parameters__", None))
+
+
 def check_list(
     name: str, value: Any, annotation: Any, equations: Set[Expr], ox: Oxentiel
 ) -> Set[Expr]:
@@ -330,7 +336,7 @@ def check_list(
 
     # If annotation is a subscriptable generic (``List[...]``).
     if annotation is not list:
-        if annotation.__args__ not in (None, annotation.__parameters__):
+        if has_type_args(annotation):
             value_type = annotation.__args__[0]
             if value_type is not Any:
 
@@ -354,7 +360,7 @@ def check_sequence(
         fail_sequence(name, annotation, qualified_name(value), ox)
 
     # Consider removing this test or even just figuring out what it does?
-    if annotation.__args__ not in (None, annotation.__parameters__):
+    if has_type_args(annotation):
         value_type = annotation.__args__[0]
         if value_type is not Any:
 
@@ -379,7 +385,7 @@ def check_dict(
 
     # Equivalently: if annotation is ``Dict[*]``.
     elif annotation is not dict:
-        if annotation.__args__ not in (None, annotation.__parameters__):
+        if has_type_args(annotation):
             key_type, value_type = annotation.__args__
             if key_type is not Any or value_type is not Any:
                 for k, v in value.items():
@@ -404,7 +410,7 @@ def check_set(
 
     # Equivalently: if annotation is ``Set[*]``.
     if annotation is not set:
-        if annotation.__args__ not in (None, annotation.__parameters__):
+        if has_type_args(annotation):
             value_type = annotation.__args__[0]
             if value_type is not Any:
                 for v in value:
-- 
2.43.0


From 70050f612fdbe3def7c28bc2a0161f67394606b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 08/28] fix: with raise-errors=no a value which is no container
 raised instead of being reported

---
 asta/origins.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index ea5ca59..c8a2f1a 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -209,6 +209,7 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
     """ Check an argument with annotation ``callable`` or ``Callable[]``. """
     if not callable(value):
         fail_callable(name, annotation, qualified_name(value), ox)
+        return
 
     if getattr(annotation, "__args__", None):
         try:
@@ -333,6 +334,7 @@ def check_list(
     """ Check an argument with annotation ``list`` or ``List[]``. """
     if not isinstance(value, list):
         fail_list(name, annotation, qualified_name(value), ox)
+        return equations
 
     # If annotation is a subscriptable generic (``List[...]``).
     if annotation is not list:
@@ -358,6 +360,7 @@ def check_sequence(
     """ Check an argument with annotation ``Sequence[*]``. """
     if not isinstance(value, collections.abc.Sequence):
         fail_sequence(name, annotation, qualified_name(value), ox)
+        return equations
 
     # Consider removing this test or even just figuring out what it does?
     if has_type_args(annotation):
@@ -407,6 +410,7 @@ def check_set(
     """ Check an argument with annotation ``Set[*]``. """
     if not isinstance(value, AbstractSet):
         fail_set(name, annotation, qualified_name(value), ox)
+        return equations
 
     # Equivalently: if annotation is ``Set[*]``.
     if annotation is not set:
@@ -449,6 +453,7 @@ def check_class(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     """ Check an arbitrary class. """
     if not inspect.isclass(value):
         fail_class(name, annotation, qualified_name(value), ox)
+        return
 
     # Needed on Python 3.7+
     if annotation is Type:
-- 
2.43.0


From ee8972f9468b3fec9917168b7af9794b62af09d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 09/28] fix: failures were reported under the name of the last
 checked function of any thread

---
 asta/decorators.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index 1f0840b..a666619 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -124,10 +124,14 @@ def typechecked(decorated):  # type: ignore[no-untyped-def]
     def _wrapper(*args: Tuple[Any], **kwargs: Dict[str, Any]) -> Any:
         """ Decorated/typechecked function. """
 
+        # Other calls may run inside or beside this one, so ``decorated`` can't be
+        # stored in the shared configuration.
+        call_ox = Oxentiel(ox.settings, mutable=True)
+        call_ox.decorated = decorated
+
         # Print header for ``decorated``.
-        ox.decorated = decorated
         header: str = get_header(decorated)
-        handle_pass(header, ox)
+        handle_pass(header, call_ox)
 
         equations: Set[Expr] = set()
         annotations: Dict[str, Any] = decorated.__annotations__
@@ -141,28 +145,27 @@ def typechecked(decorated):  # type: ignore[no-untyped-def]
         # Check arguments.
         for name, arg in checkable_args.items():
             annotation = annotations[name]
-            equations = check_annotation(name, arg, annotation, equations, ox)
+            equations = check_annotation(name, arg, annotation, equations, call_ox)
             del annotation
 
         # Solve our system of equations if it is nonempty.
         solvable, symbols, solutions = astasolver(equations)
         if not solvable:
-            fail_system(equations, symbols, solutions, ox)
+            fail_system(equations, symbols, solutions, call_ox)
 
         # Call the decorated function.
         ret = decorated(*args, **kwargs)
 
         # Check return.
-        ox.decorated = decorated
         if "return" in annotations:
             annotation = annotations["return"]
-            equations = check_annotation("return", ret, annotation, equations, ox)
+            equations = check_annotation("return", ret, annotation, equations, call_ox)
             del annotation
 
         # Solve our system of equations if it is nonempty.
         solvable, symbols, solutions = astasolver(equations)
         if not solvable:
-            fail_system(equations, symbols, solutions, ox)
+            fail_system(equations, symbols, solutions, call_ox)
 
         return ret
 
-- 
2.43.0


From 62a4de95ebef0eb48c0dfe433f239ff00ac71ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 10/28] fix: with raise-errors=no only the first type of a
 Union was tried

---
 asta/origins.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index c8a2f1a..e3be15e 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -437,9 +437,13 @@ def check_union(
         # Python 3.6+
         union_params = annotation.__args__
 
+    # Failures of a single type are neither reported nor accepted.
+    settings = {key: val for key, val in ox.settings.items() if key != "decorated"}
+    trial_ox = Oxentiel({**settings, "raise_errors": True}, mutable=True)
+
     for type_ in union_params:
         try:
-            equations = check_annotation(name, value, type_, equations, ox)
+            equations = check_annotation(name, value, type_, equations, trial_ox)
             return equations
         except TypeError as _err:
             pass
-- 
2.43.0


From 65538bab5cd8f7fe1ce8136560ed5e26c58e128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:45 +0000
Subject: [PATCH 11/28] fix: annotations derived from a hashed one kept its
 hash, sized and unsized dtypes compared equal

---
 asta/_array.py  | 3 +++
 asta/classes.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/asta/_array.py b/asta/_array.py
index 06e0c3e..92cb736 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -45,6 +45,9 @@ class _ArrayMeta(SubscriptableMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
+        # Sized and unsized dtypes differ, e.g. ``np.dtype(str)`` and ``str``.
+        if cls.kind != other.kind:
+            return False
         return True
 
     def __hash__(cls) -> int:
diff --git a/asta/classes.py b/asta/classes.py
index 490e98c..d643017 100644
--- a/asta/classes.py
+++ b/asta/classes.py
@@ -81,6 +81,7 @@ class SubscriptableMeta(GenericMeta):
             **cls.__dict__,
             "__args__": item,
             "__origin__": cls,
+            "_hash": 0,
         }
         bases = cls, *cls.__bases__
         result: GenericMeta = type(cls.__name__, bases, body)  # type: ignore
-- 
2.43.0


From 264bce85ebf3f73031259b09e608101b37b773a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 12/28] fix: options in pyproject.toml, setup.cfg and an ASTARC
 file of any name were ignored

---
 asta/config.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/asta/config.py b/asta/config.py
index 2957082..deb5db5 100644
--- a/asta/config.py
+++ b/asta/config.py
@@ -25,8 +25,9 @@ def _toml_has_config(path: str) -> bool:
 
 
 def _cfg_has_config(path: str) -> bool:
-    parser = configparser.ConfigParser()
-    parser.read(path)
+    parser = configparser.ConfigParser(interpolation=None)
+    with io.open(path, "r", encoding="utf_8_sig") as config_file:
+        parser.read_file(config_file)
     return any(section.startswith("asta.") for section in parser.sections())
 
 
@@ -71,16 +72,14 @@ def find_default_config_files() -> Generator[str, None, None]:
 
 def find_astarc() -> Optional[str]:
     """ Look for an ``astarc`` file. Return it if found, else return ``None``. """
-    for config_file in find_default_config_files():
-        if config_file.endswith("astarc"):
-            return config_file
-    return None
+    return next(find_default_config_files(), None)
 
 
 # pylint: disable=protected-access
 def read_config(config_path: str) -> configparser.ConfigParser:
     """ Parse a config file from ``config_path``, given a file exists there. """
-    parser = configparser.ConfigParser()
+    # No interpolation: it can't handle toml booleans or options of other tools.
+    parser = configparser.ConfigParser(interpolation=None)
     if config_path.endswith(".toml"):
         with open(config_path, "r") as toml_file:
             content = toml.load(toml_file)
@@ -99,10 +98,11 @@ def read_config(config_path: str) -> configparser.ConfigParser:
 
         # Normalize sections' titles.
         for sect, values in list(parser._sections.items()):  # type: ignore
-            if sect.startswith("asta."):
-                sect = sect[len("asta.") :]
-            if not sect.isupper() and values:
-                parser._sections[sect.upper()] = values  # type: ignore[attr-defined]
+            title = sect
+            if title.startswith("asta."):
+                title = title[len("asta.") :]
+            if title.upper() != sect and values:
+                parser._sections[title.upper()] = values  # type: ignore[attr-defined]
     return parser
 
 
-- 
2.43.0


From 0db3e6a09ed4f6310b666c200d0357171abfb825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 13/28] fix: a configuration file removed while it was loaded
 was silently replaced by the defaults

---
 asta/config.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/asta/config.py b/asta/config.py
index deb5db5..c7104e1 100644
--- a/asta/config.py
+++ b/asta/config.py
@@ -121,8 +121,7 @@ def get_ox() -> Oxentiel:
     ox = _internal.ox
     if not ox:
         path = find_astarc()
-        parse = path and os.path.exists(path)
-        if parse and path:
+        if path:
             parser = configparser.ConfigParser()
             parser = read_config(path)
             if "MASTER" in parser:
-- 
2.43.0


From f7c5cd0521bfdde0a1bed2f88d1955a22eeef1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 14/28] fix: adding a shape to a tuple, as in the README,
 raised TypeError

---
 asta/placeholder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/asta/placeholder.py b/asta/placeholder.py
index fdbed3e..46a8033 100644
--- a/asta/placeholder.py
+++ b/asta/placeholder.py
@@ -56,3 +56,10 @@ class Placeholder:
         result.contents = sum_contents
         result.composite = True
         return result
+
+    def __radd__(self, summand: Any) -> Any:
+        """ Return the concatenation with a tuple on the left. """
+        result = self + summand
+        own_contents = self.contents if self.contents else [self]
+        result.contents = [summand] + own_contents
+        return result
-- 
2.43.0


From d203b3dabdeea6b7bd73158394bfdd0c6432624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 15/28] fix: assigning a dim also bound the symbol of the same
 name

---
 asta/dims.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/asta/dims.py b/asta/dims.py
index b1499e6..7b790de 100644
--- a/asta/dims.py
+++ b/asta/dims.py
@@ -22,6 +22,12 @@ def __getattr__(name: str) -> Any:
     raise NotImplementedError
 
 
+class Dim(Symbol):
+    """ A named dimension, which differs from the symbol of the same name. """
+
+    __slots__ = ()
+
+
 class Dimensions:
     """ An instance of this object acts as a proxy for this module. """
 
@@ -46,7 +52,7 @@ class Dimensions:
             return attr
 
         # Handle everything else as a symbol.
-        symbol = symbols(name)
+        symbol = symbols(name, cls=Dim)
 
         # A single map operation, so that a first read can't overwrite a value
         # which is assigned by another thread in the meantime.
@@ -64,7 +70,7 @@ class Dimensions:
         else:
             if not isinstance(value, int):
                 raise TypeError("Value of a dim must be an integer.")
-            symbol = symbols(name)
+            symbol = symbols(name, cls=Dim)
             self.symbol_map[symbol] = value
 
 
-- 
2.43.0


From fc68b2d5f9a4181c9e5aa60455fb052504fedf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 16/28] fix: parameters annotated with X | Y were never checked

---
 asta/origins.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index e3be15e..64c7a48 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 # -*- coding: utf-8 -*-
 """ Functions for checking type annotations and their origin types. """
+import types
 import inspect
 import collections
 from io import IOBase, RawIOBase, TextIOBase, BufferedIOBase
@@ -79,6 +80,9 @@ try:
 except ImportError:
     Literal = None
 
+# The type of unions written as ``X | Y``.
+UnionType: Any = getattr(types, "UnionType", ())
+
 # pylint: disable=too-many-lines, too-many-nested-blocks, too-many-branches
 
 
@@ -559,6 +563,8 @@ def check_annotation(
 
     # Get origin type.
     origin: Any = getattr(annotation, "__origin__", None)
+    if isinstance(annotation, UnionType):
+        origin = Union
 
     # Treat asta types.
     if isinstance(annotation, SubscriptableMeta):
-- 
2.43.0


From 18f64c26afe1c630e17ff7539c0a80a68288797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 17/28] fix: a call with a value annotated as Tensor or
 TFTensor raised KeyError if the library is missing

---
 asta/origins.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 64c7a48..6a1db7d 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -60,6 +60,7 @@ from asta.display import (
 )
 from asta.constants import _TORCH_IMPORTED, _TENSORFLOW_IMPORTED, NoneType, tf, torch
 from asta.substitution import substitute
+from asta.unusable import UnusableMeta
 
 METAMAP: Dict[type, SubscriptableMeta] = {_ArrayMeta: Array}
 
@@ -136,6 +137,10 @@ def check_asta(
 ) -> Set[Expr]:
     """ Check asta subscriptable class types. """
 
+    # Raise a meaningful ImportError for types of missing libraries.
+    if isinstance(annotation, UnusableMeta):
+        annotation._import()
+
     annotation, initialized = refresh(annotation, ox)
 
     # If we haven't set the value of a placeholder used in the annotation, e.g.
-- 
2.43.0


From 7c13673179cf9abc48208719e56f4946d8a1d3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 18/28] fix: calls with a subclass of dict as annotation always
 raised

---
 asta/origins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 6a1db7d..0940532 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -592,7 +592,7 @@ def check_annotation(
 
         if issubclass(annotation, Tuple):  # type: ignore[arg-type]
             equations = check_tuple(name, value, annotation, equations, ox)
-        elif issubclass(annotation, dict) and hasattr(annotation, "__annotations__"):
+        elif issubclass(annotation, dict) and hasattr(annotation, "__total__"):
             equations = check_typed_dict(name, value, annotation, equations, ox)
         elif annotation == NoneType:
             check_none(name, value, annotation, ox)
-- 
2.43.0


From 944923f58e26550db5e9c30892da619d84986e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 19/28] fix: fields of named tuples were not checked on Python
 3.9 and later

---
 asta/origins.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 0940532..2b8049e 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -278,15 +278,20 @@ def check_tuple(
 ) -> Set[Expr]:
     """ Check an argument with annotation ``tuple`` or ``Tuple[]``. """
 
+    field_types = getattr(annotation, "_field_types", None)
+    if field_types is None and hasattr(annotation, "_fields"):
+        # Python 3.9+
+        hints = annotation.__annotations__
+        field_types = {key: hints[key] for key in annotation._fields if key in hints}
+
     # Specialized check for NamedTuples.
-    if hasattr(annotation, "_field_types"):
+    if field_types is not None:
 
         if not isinstance(value, annotation):
             fail_namedtuple(name, qualified_name(annotation), qualified_name(value), ox)
             return equations
 
-        # pylint: disable=protected-access
-        for subname, field_type in annotation._field_types.items():
+        for subname, field_type in field_types.items():
             equations = check_annotation(
                 f"{name}.{subname}", getattr(value, subname), field_type, equations, ox
             )
-- 
2.43.0


From f14da6bbd436db1c4c02f508360959b41626113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 20/28] fix: annotations with the same composition of named
 shapes compared unequal

---
 asta/placeholder.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/asta/placeholder.py b/asta/placeholder.py
index 46a8033..96ce72c 100644
--- a/asta/placeholder.py
+++ b/asta/placeholder.py
@@ -24,6 +24,16 @@ class Placeholder:
         name = f"{self.name}" if self.name is not None else ""
         return f"#{name}{content}"
 
+    def __eq__(self, other: Any) -> bool:
+        """ Placeholders are equal if they have the same name and contents. """
+        if not isinstance(other, Placeholder):
+            return NotImplemented
+        return self.name == other.name and self.contents == other.contents
+
+    def __hash__(self) -> int:
+        """ Equal placeholders have equal hashes. """
+        return hash((self.name, tuple(self.contents)))
+
     def __iter__(self) -> object:
         """ Make sure instances can be unpacked. """
         self.unpacked = True
-- 
2.43.0


From 7c259752799b4a0f4ab7b69da3edbda96f364e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:32 +0000
Subject: [PATCH 21/28] fix: annotations without a dtype compared equal to
 those with dtype float64

---
 asta/_array.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asta/_array.py b/asta/_array.py
index 92cb736..5dd3b85 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -45,6 +45,9 @@ class _ArrayMeta(SubscriptableMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
+        # Numpy considers ``None`` equal to its default dtype, ``float64``.
+        if (cls.dtype is None) != (other.dtype is None):
+            return False
         # Sized and unsized dtypes differ, e.g. ``np.dtype(str)`` and ``str``.
         if cls.kind != other.kind:
             return False
-- 
2.43.0


From 93c42a6719b575ddd8141168694279d91345b42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 22/28] fix: match positional arguments to parameters, not to
 the order of annotations

The annotations of positional-only parameters come after those of the other
parameters, so f(x, /, y) had x checked against the annotation of y.
---
 asta/decorators.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index a666619..bb282d7 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -46,12 +46,14 @@ def validate_annotations(  # type: ignore[no-untyped-def]
 
     if len(sig.parameters) == num_non_return_annots + 1 and paramlist[0] in refs:
         pure_args = pure_args[1:]  # type: ignore[assignment]
-    for i, arg in enumerate(pure_args):
-        name = list(annotations.keys())[i]
-        checkable_args[name] = arg
+
+    # The order of annotations may differ from that of the parameters: names of
+    # positional-only parameters come last.
+    names = [name for name in paramlist if name in annotations]
+    checkable_args.update(zip(names, pure_args))
 
     # Check for mismatch between lengths of arguments/annotations.
-    if num_non_return_annots != len(checkable_args):
+    if num_non_return_annots != len(checkable_args) or len(pure_args) > len(names):
         num_annot_err = f"Mismatch between number of annotated "
         num_annot_err += f"non-(self / cls / mcs) parameters "
         num_annot_err += f"'({num_non_return_annots})' and number of arguments "
-- 
2.43.0


From b0dd740ca3ead2a3cd2ca11327ca31205be50d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 23/28] fix: check the fields of subclasses of named tuples

The class has no annotations of its own, so no field was checked.
---
 asta/origins.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 2b8049e..9a7487d 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -281,7 +281,10 @@ def check_tuple(
     field_types = getattr(annotation, "_field_types", None)
     if field_types is None and hasattr(annotation, "_fields"):
         # Python 3.9+
-        hints = annotation.__annotations__
+        # The annotations of a subclass don't contain those of its bases.
+        hints: Dict[str, Any] = {}
+        for base in reversed(annotation.__mro__):
+            hints.update(base.__dict__.get("__annotations__", {}))
         field_types = {key: hints[key] for key in annotation._fields if key in hints}
 
     # Specialized check for NamedTuples.
-- 
2.43.0


From 8efe737c097e4f3d5461ca9d3044c7f52806ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 24/28] fix: honour optional keys of typed dictionaries

Classes which inherit from others with a different totality, Required[*] and
NotRequired[*] were judged by the totality of the last class alone, and values
of qualified keys were not checked.
---
 asta/origins.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 9a7487d..db49219 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -2,6 +2,7 @@
 # -*- coding: utf-8 -*-
 """ Functions for checking type annotations and their origin types. """
 import types
+import typing
 import inspect
 import collections
 from io import IOBase, RawIOBase, TextIOBase, BufferedIOBase
@@ -81,6 +82,13 @@ try:
 except ImportError:
     Literal = None
 
+# Python 3.11+
+KEY_QUALIFIERS = [
+    getattr(typing, name)
+    for name in ("Required", "NotRequired")
+    if hasattr(typing, name)
+]
+
 # The type of unions written as ``X | Y``.
 UnionType: Any = getattr(types, "UnionType", ())
 
@@ -198,16 +206,21 @@ def check_typed_dict(
     if extra_keys:
         fail_keys(name, expected_keys, existing_keys, ox)
 
-    if annotation.__total__:
-        missing_keys = expected_keys - existing_keys
-        if missing_keys:
-            fail_keys(name, expected_keys, existing_keys, ox)
+    # Python 3.9+: classes with and without optional keys may be combined.
+    required_keys = expected_keys if annotation.__total__ else frozenset()
+    required_keys = getattr(annotation, "__required_keys__", required_keys)
+    missing_keys = required_keys - existing_keys
+    if missing_keys:
+        fail_keys(name, expected_keys, existing_keys, ox)
 
     # pylint: disable=invalid-name
     MISSING_VALUE = object()
     for key, argtype in annotation.__annotations__.items():
         argvalue = value.get(key, MISSING_VALUE)
         if argvalue is not MISSING_VALUE:
+            # Unwrap ``Required[*]`` and ``NotRequired[*]``.
+            if getattr(argtype, "__origin__", None) in KEY_QUALIFIERS:
+                argtype = argtype.__args__[0]
             equations = check_annotation(
                 f"{name}[{key}]", argvalue, argtype, equations, ox
             )
-- 
2.43.0


From 85619bca7820c1c65e0097f356d6513a6c65e269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:40 +0000
Subject: [PATCH 25/28] fix: check the first element of sequences which can't
 be sliced

With check-all-sequence-elements=no, deques and other sequences whose indices
must be integers were refused.
---
 asta/origins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index db49219..1d28912 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -4,6 +4,7 @@
 import types
 import typing
 import inspect
+import itertools
 import collections
 from io import IOBase, RawIOBase, TextIOBase, BufferedIOBase
 from typing import (
@@ -397,9 +398,10 @@ def check_sequence(
         value_type = annotation.__args__[0]
         if value_type is not Any:
 
+            # Not all sequences can be sliced.
             value_iterable = value
             if not ox.check_all_sequence_elements:
-                value_iterable = value_iterable[:1]
+                value_iterable = itertools.islice(value, 1)
             for i, v in enumerate(value_iterable):
                 element_equations = check_annotation(
                     f"{name}[{i}]", v, value_type, equations, ox
-- 
2.43.0


From c1ce063365edcbab6c7d545e2d59de4a6c5c8b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:40 +0000
Subject: [PATCH 26/28] fix: unwrap Annotated types before looking at their
 arguments

Annotated[Dict, *] was taken for a dictionary with one type argument.
---
 asta/origins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 1d28912..f0b2cd4 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -589,6 +589,10 @@ def check_annotation(
     # solution, all the annotations' solutions must agree for a given function
     # signature.
 
+    # Unwrap ``Annotated[*]``, whose arguments aren't those of its origin.
+    if hasattr(annotation, "__metadata__"):
+        annotation = annotation.__origin__
+
     # Get origin type.
     origin: Any = getattr(annotation, "__origin__", None)
     if isinstance(annotation, UnionType):
-- 
2.43.0


From 2daf7ed31ab5603bf40a4befa7a2e232aacb8bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:54 +0000
Subject: [PATCH 27/28] fix: accept everything for Any when other types are
 checked

Any is a class since Python 3.11, but can't be used with isinstance().
---
 asta/origins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index f0b2cd4..bba0779 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -623,7 +623,7 @@ def check_annotation(
             equations = check_typed_dict(name, value, annotation, equations, ox)
         elif annotation == NoneType:
             check_none(name, value, annotation, ox)
-        elif ox.check_non_asta_types:
+        elif ox.check_non_asta_types and annotation is not Any:
             if issubclass(annotation, (float, complex)):
                 check_number(name, value, annotation, ox)
             elif subclass_callable and has_args:
-- 
2.43.0


From 14cb3848052f5cbdfc9102c62785c72cd2307ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 28/28] fix: don't report values as accepted whose dimension is
 unassigned

---
 asta/substitution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asta/substitution.py b/asta/substitution.py
index 3bd8ea5..3bba1ad 100644
--- a/asta/substitution.py
+++ b/asta/substitution.py
@@ -55,6 +55,7 @@ def substitute(
                     if value is None:
 
                         # If so, we treat as before and raise an error.
+                        initialized = False
                         name = symbol.name
 
                         # Prevents us from printing the same error message twice.
-- 
2.43.0

