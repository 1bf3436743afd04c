From cc9eff98ed109d71b9bf7fad3e6f62d13b491d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 01/50] fix: treat imports in try/except* statements as
 optional

---
 modulegraph2/_ast_tools.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_ast_tools.py b/modulegraph2/_ast_tools.py
index 4efc7aa..06bce45 100644
--- a/modulegraph2/_ast_tools.py
+++ b/modulegraph2/_ast_tools.py
@@ -5,11 +5,19 @@ a function for extracting information about import statements from the AST.
 
 import ast
 import collections
+import sys
 from collections.abc import Iterator
 from typing import Deque
 
 from ._importinfo import ImportInfo, create_importinfo
 
+# ``try`` statements with ``except*`` clauses have a separate node
+# type (Python 3.11 or later).
+if sys.version_info[:2] >= (3, 11):
+    _TRY_NODES: tuple[type[ast.AST], ...] = (ast.Try, ast.TryStar)
+else:
+    _TRY_NODES = (ast.Try,)
+
 
 def extract_ast_info(node: ast.AST) -> Iterator[ImportInfo]:
     """
@@ -61,7 +69,7 @@ def extract_ast_info(node: ast.AST) -> Iterator[ImportInfo]:
             for child in ast.iter_child_nodes(node):
                 work_q.append((child, True, in_if, in_tryexcept))
 
-        elif isinstance(node, (ast.Try)):
+        elif isinstance(node, _TRY_NODES):
             for name, children in ast.iter_fields(node):
                 if name == "finalbody":
                     for child in children:
-- 
2.43.0


From b25e63a55ab5b3dc3bf7917922f2e360381483ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 02/50] fix: ignore EXTENDED_ARG prefixes when scanning byte
 code for classes and imports

---
 modulegraph2/_bytecode_tools.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modulegraph2/_bytecode_tools.py b/modulegraph2/_bytecode_tools.py
index a89f204..f9ef801 100644
--- a/modulegraph2/_bytecode_tools.py
+++ b/modulegraph2/_bytecode_tools.py
@@ -58,7 +58,12 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
 
       is_class_code: True if this is the code object for a class
     """
-    instructions = list(dis.get_instructions(code))
+    # The *arg* of an instruction already includes the value of EXTENDED_ARG
+    # prefixes, drop those to be able to look at preceding instructions
+    # using fixed offsets.
+    instructions = [
+        inst for inst in dis.get_instructions(code) if inst.opname != "EXTENDED_ARG"
+    ]
 
     imports: list[ImportInfo] = []
     globals_written: set[str] = set()
@@ -70,12 +75,7 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
     for offset, inst in enumerate(instructions):
         if inst.opname == "IMPORT_NAME":
             from_inst_offset = 1
-            if instructions[offset - from_inst_offset].opname == "EXTENDED_ARG":
-                from_inst_offset += 1
-
-            level_inst_offset = from_inst_offset + 1
-            if instructions[offset - level_inst_offset].opname == "EXTENDED_ARG":
-                level_inst_offset += 1
+            level_inst_offset = 2
 
             assert (
                 instructions[offset - from_inst_offset].opname == "LOAD_CONST"
-- 
2.43.0


From bfcc67a501e96280ab38e5451c4f96f1139ae2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 03/50] fix: fill in the global names of scripts

---
 modulegraph2/_modulegraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 413a063..cf67031 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -16,6 +16,7 @@ from typing import TextIO, cast
 from objectgraph import ObjectGraph
 
 from ._ast_tools import extract_ast_info
+from ._bytecode_tools import extract_bytecode_info
 from ._callback_list import CallbackList, FirstNotNone
 from ._depinfo import DependencyInfo, from_importinfo
 from ._distributions import PyPIDistribution, distribution_named
@@ -719,6 +720,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         )
 
         node = Script(os.fspath(script_path), code)
+        _, node.globals_written, node.globals_read = extract_bytecode_info(code)
         self.add_node(node)
         self._process_import_list(node, imports)
         return node
-- 
2.43.0


From 1322fae032344417adf7c2a36fd3b32f23518404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 04/50] fix: look for submodules when a package binds the
 imported name to another module

A name in 'from package import name' was assumed to be bound by an import in the
package when that import has the right target, even if it binds another name, and
the submodule with that name was ignored when the import is executed before
the package binds the name.
---
 modulegraph2/_modulegraph.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index cf67031..26b6da1 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -966,21 +966,20 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                     if nm in imported_module.globals_written:
                         # Name exists as a global in the imported module,
                         # it is either a global or an imported module.
-                        found_imported = False
                         for ed_set, tgt in self.outgoing(imported_module):
-                            if (
-                                any(nm == ed.imported_as for ed in ed_set)
-                                or tgt.identifier == nm
+                            if any(
+                                nm == ed.imported_as
+                                or (ed.imported_as is None and tgt.identifier == nm)
+                                for ed in ed_set
                             ):
                                 self.add_edge(
                                     importing_module,
                                     tgt,
                                     from_importinfo(import_info, True, nm.asname),
                                 )
-                                found_imported = True
                                 break
 
-                        if found_imported or isinstance(imported_module, Module):
+                        if isinstance(imported_module, Module):
                             # For packages with a source or bytecode ``__init__``
                             # the ``import_names`` attribute already contains
                             # all from-imported names by way of the bytecode and ast
@@ -989,7 +988,8 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                             # For packages we still want to check if there is a
                             # submodule of the specified name, needed to properly
                             # handle ``from . import sub_module`` in a package
-                            # ``__init__``.
+                            # ``__init__``, and imports that are executed before
+                            # the package has bound the name (import cycles).
                             continue
 
                     elif isinstance(imported_module, Module):
-- 
2.43.0


From 0af023649facef988de075a0b746c742f5709776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 05/50] fix: relative imports in scripts are invalid

The package of a script was calculated from its filename, resulting in bogus missing modules
('/dir/script') or an AssertionError.
---
 modulegraph2/_graphbuilder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 03a2a5d..f08f249 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -30,6 +30,7 @@ from ._nodes import (
     Module,
     NamespacePackage,
     Package,
+    Script,
     SourceModule,
 )
 
@@ -514,6 +515,10 @@ def node_for_spec(
 def relative_package(importing_module: BaseNode, import_level: int):
     assert import_level > 0
 
+    if isinstance(importing_module, Script):
+        # Scripts are not part of a package
+        return None
+
     if isinstance(importing_module, (Package, NamespacePackage)):
         import_level -= 1
 
-- 
2.43.0


From bb0b8c352684d504ba07f2296aed3ef83d275b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:15 +0000
Subject: [PATCH 06/50] fix: handle modules with a syntax error in a zipfile

zipimporter compiles a module to create its spec, the SyntaxError resulted in an AssertionError
while building the graph.
---
 modulegraph2/_modulegraph.py |  8 +++----
 modulegraph2/_utilities.py   | 41 ++++++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 26b6da1..5e30c95 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -37,7 +37,7 @@ from ._nodes import (
     VirtualNode,
 )
 from ._swig_support import swig_missing_hook
-from ._utilities import FakePackage, split_package
+from ._utilities import FakePackage, find_spec, split_package
 
 ProcessingCallback = Callable[["ModuleGraph", BaseNode], None]
 MissingCallback = Callable[["ModuleGraph", BaseNode | None, str], BaseNode | None]
@@ -575,7 +575,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
 
         try:
             try:
-                spec = importlib.util.find_spec(module_name)
+                spec = find_spec(module_name)
 
             except ValueError as exc:
                 assert "__spec__" in exc.args[0]
@@ -586,7 +586,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 # importlib.util.find_spec.
                 orig = sys.modules.pop(module_name)
                 try:
-                    spec = importlib.util.find_spec(module_name)
+                    spec = find_spec(module_name)
                 finally:
                     assert module_name not in sys.modules
                     sys.modules[module_name] = orig
@@ -623,7 +623,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 parent = module_name.rpartition(".")[0]
                 assert parent not in sys.modules
 
-                spec = importlib.util.find_spec(parent)
+                spec = find_spec(parent)
                 assert spec is not None
                 loader = spec.loader
                 assert isinstance(loader, importlib.abc.InspectLoader)
diff --git a/modulegraph2/_utilities.py b/modulegraph2/_utilities.py
index 3683de5..0ec06ab 100644
--- a/modulegraph2/_utilities.py
+++ b/modulegraph2/_utilities.py
@@ -4,7 +4,11 @@ Some useful utility functions.
 
 import contextlib
 import importlib
+import importlib.util
+import os
 import sys
+import zipimport
+from importlib.machinery import ModuleSpec
 
 
 @contextlib.contextmanager
@@ -47,6 +51,43 @@ def split_package(name: str) -> tuple[str | None, str]:
     return (package if package != "" else None), name
 
 
+def find_spec(name: str) -> ModuleSpec | None:
+    """
+    Return the spec for module *name*
+
+    This is :func:`importlib.util.find_spec`, but also works for modules
+    in a zipfile that cannot be compiled: the zipimporter compiles
+    a module while creating its spec.
+    """
+    try:
+        return importlib.util.find_spec(name)
+    except SyntaxError:
+        parent, _, tail = name.rpartition(".")
+        if parent and parent not in sys.modules:
+            # Importing the parent package failed
+            raise
+
+        for entry in sys.modules[parent].__path__ if parent else sys.path:
+            importer = sys.path_importer_cache.get(entry)
+            if not isinstance(importer, zipimport.zipimporter):
+                continue
+
+            try:
+                is_package = importer.is_package(name)
+            except zipimport.ZipImportError:
+                continue
+
+            origin = os.path.join(importer.archive, importer.prefix, tail)
+            spec = ModuleSpec(name, importer, is_package=is_package)
+            if spec.submodule_search_locations is not None:
+                spec.submodule_search_locations.append(origin)
+                origin = os.path.join(origin, "__init__")
+            spec.origin = origin + ".py"
+            return spec
+
+        raise
+
+
 class FakePackage:
     """
     Instances of these can be used to represent a fake
-- 
2.43.0


From 2e2c14b87e4dab6855e632f04190a5f6ac8fff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:23 +0000
Subject: [PATCH 07/50] fix: packages that fail to import with any exception do
 not abort building the graph

---
 modulegraph2/_graphbuilder.py | 2 +-
 modulegraph2/_modulegraph.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index f08f249..400cf20 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -477,7 +477,7 @@ def node_for_spec(
             # the correct submodule search path.
             try:
                 m = importlib.import_module(node.name)
-            except ImportError:
+            except (Exception, SystemExit):
                 pass
             else:
                 spec.submodule_search_locations = getattr(m, "__path__", [])
diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 5e30c95..7d18c78 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -606,7 +606,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 node = self._create_missing_module(importing_module, module_name)
                 return node
 
-        except Exception as exc:
+        except (Exception, SystemExit) as exc:
             if not isinstance(exc, ModuleNotFoundError) or "No module named" in str(
                 exc
             ):
-- 
2.43.0


From 549ad5a54ba8c022b86d1ec703ae28f6d3ae1a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:25 +0000
Subject: [PATCH 08/50] fix: apply excludes and implied actions to modules that
 are imported using another name

Excluding a module had no effect when that module was imported through an alias in sys.modules
(such as os.path for posixpath, or six.moves).
---
 modulegraph2/_modulegraph.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 7d18c78..8115b32 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -653,17 +653,30 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             alias_node = AliasNode(module_name, node.name)
             self.add_node(alias_node)
             self._process_import_list(alias_node, ())
-            if self.find_node(node) is None:
-                self.add_node(node)
-                self._process_import_list(node, imports)
-
+            actual_node = self._find_module(node.name)
+            if actual_node is None:
+                # Excludes and implied actions are used regardless of
+                # the name that was used to import the module.
                 containing_package, _ = split_package(node.name)
+                if containing_package is not None and isinstance(
+                    self._find_or_load_module(None, containing_package), ExcludedModule
+                ):
+                    node, imports = ExcludedModule(node.name), ()
+
+                actual_node = self._implied_references(alias_node, node.name)
+                if actual_node is None:
+                    actual_node = self._find_module(node.name)
+
+                if actual_node is None:
+                    actual_node = node
+                    self.add_node(node)
+                    self._process_import_list(node, imports)
+
                 if containing_package is not None:
                     # Ensure that the aliased node links back to its package
-                    parent_node = self._find_or_load_module(None, containing_package)
-                    self.add_edge(node, parent_node, DEFAULT_DEPENDENCY)
+                    self.add_edge(actual_node, containing_package, DEFAULT_DEPENDENCY)
 
-            self.add_edge(alias_node, node, DEFAULT_DEPENDENCY)
+            self.add_edge(alias_node, actual_node, DEFAULT_DEPENDENCY)
             return alias_node
 
         self.add_node(node)
-- 
2.43.0


From 6a1b1382cca7a2f1265abe970c04cbb633701871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:18 +0000
Subject: [PATCH 09/50] fix: resolve chains of aliases while processing names
 in from-imports

Importing a submodule using an alias for an alias did not add the submodule to the graph, and a star import
from an alias did not update the global names of the importing module.
---
 modulegraph2/_modulegraph.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 8115b32..fcc7f24 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -955,25 +955,27 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
           import_info: Information about the import
         """
         assert isinstance(importing_module, (Module, Package, Script))
+
+        # Names are imported from the module that an alias refers to, which
+        # can be another alias.
+        aliases: set[str] = set()
+        while (
+            isinstance(imported_module, AliasNode)
+            and imported_module.identifier not in aliases
+        ):
+            aliases.add(imported_module.identifier)
+            node = self._find_module(imported_module.actual_module)
+            assert node is not None
+            imported_module = node
+
         if import_info.star_import:
             if isinstance(imported_module, (Package, Module)):
                 importing_module.globals_written.update(imported_module.globals_written)
 
         else:
             if import_info.import_names and isinstance(
-                imported_module, (Package, NamespacePackage, AliasNode, Module)
+                imported_module, (Package, NamespacePackage, Module)
             ):
-                if isinstance(imported_module, AliasNode):
-                    importing_module.globals_written.update(import_info.import_names)
-                    node = self._find_module(imported_module.actual_module)
-                    assert node is not None
-
-                    imported_module = node
-                    if not isinstance(
-                        imported_module, (Package, NamespacePackage, Module)
-                    ):
-                        return
-
                 importing_module.globals_written.update(import_info.import_names)
                 for nm in import_info.import_names:
                     if nm in imported_module.globals_written:
-- 
2.43.0


From 57d51bf68299c92f53f6c7164815c3d81eadd032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:03 +0000
Subject: [PATCH 10/50] fix: import_package uses the search path of the package
 node and adds all kinds of modules

It failed for packages that cannot be imported and packages in zipfiles, ignored extension and byte code
modules, and added nodes for '__init__' and '__pycache__'.
---
 modulegraph2/_modulegraph.py | 50 +++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index fcc7f24..147cbcd 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -5,9 +5,9 @@ This module contains the definition of the ModuleGraph class.
 import ast
 import contextlib
 import importlib
+import inspect
 import operator
 import os
-import pathlib
 import sys
 from collections.abc import Callable, Iterable, Iterator
 from types import ModuleType
@@ -324,31 +324,39 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         # to find submodules by looking in the filesystem.
         #
 
-        spec = importlib.util.find_spec(package_name)
-        assert spec is not None, f"Graph doesn't reflect reality for {package_name}"
-        for path_name in spec.submodule_search_locations or []:
-            path = pathlib.Path(path_name)
-            for fn in path.glob("*.py"):
-                module = fn.stem
-                if not module.isidentifier():
-                    continue
-
-                module_node = self._find_or_load_module(
-                    node, f"{package_name}.{module}"
-                )
-                self.add_edge(node, module_node, DEFAULT_DEPENDENCY)
-
-                # This is harmless for modules, and avoids issues in edge cases
-                # where a package contains both a .py file and a sub package
-                self._work_stack.append(
-                    (self.import_package, (node, f"{package_name}.{module}"))
-                )
+        for path in node.search_path:
+            if not path.is_dir():
+                # Not in the filesystem
+                continue
 
             for fn in path.iterdir():
-                if fn.is_dir() and fn.name.isidentifier():
+                if fn.is_dir():
+                    if not fn.name.isidentifier() or fn.name == "__pycache__":
+                        continue
+
                     self._work_stack.append(
                         (self.import_package, (node, f"{package_name}.{fn.name}"))
                     )
+
+                else:
+                    module = inspect.getmodulename(fn)
+                    if (
+                        module is None
+                        or not module.isidentifier()
+                        or module == "__init__"
+                    ):
+                        continue
+
+                    module_node = self._find_or_load_module(
+                        node, f"{package_name}.{module}"
+                    )
+                    self.add_edge(node, module_node, DEFAULT_DEPENDENCY)
+
+                    # This is harmless for modules, and avoids issues in edge cases
+                    # where a package contains both a .py file and a sub package
+                    self._work_stack.append(
+                        (self.import_package, (node, f"{package_name}.{module}"))
+                    )
         return node
 
     def add_post_processing_hook(self, hook: ProcessingCallback) -> None:
-- 
2.43.0


From 3f722f24098aee2aa5ac8d9e4bc595c790dd8e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:20 +0000
Subject: [PATCH 11/50] fix: importing a submodule of a name that is provided
 by a hook or implied action does not fail

Importing 'zz.sub' when 'zz' is resolved by a missing hook or is an implied virtual module raised an AssertionError,
and submodules of a package that raises ModuleNotFoundError with a custom message were not found.
---
 modulegraph2/_modulegraph.py | 58 ++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 32 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 147cbcd..8f7639b 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -614,42 +614,36 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 node = self._create_missing_module(importing_module, module_name)
                 return node
 
-        except (Exception, SystemExit) as exc:
-            if not isinstance(exc, ModuleNotFoundError) or "No module named" in str(
-                exc
-            ):
-                # find_spec actually imports parent packages, which can
-                # cause problems when importing fails for some reason.
-                #
-                # Try to work around this by inserting a fake module object
-                # in sys.modules and retrying.
-                #
-                # node_for_spec on a submodule is called only after
-                # successfully calling node_for_spec on the parent package,
-                # hence we know that find_spec will be successfull and
-                # will find a pacakge with an __init__.py.
-                parent = module_name.rpartition(".")[0]
-                assert parent not in sys.modules
-
-                spec = find_spec(parent)
-                assert spec is not None
-                loader = spec.loader
-                assert isinstance(loader, importlib.abc.InspectLoader)
-                if loader.is_package(spec.name):
-                    path = spec.origin
-                    assert path is not None
-                    assert path.rpartition(os.sep)[-1].startswith("__init__."), path
-                    path = os.path.dirname(path)
-                    sys.modules[parent] = cast(ModuleType, FakePackage([path]))
-                    return self._load_module(importing_module, module_name)
+        except (Exception, SystemExit):
+            # find_spec actually imports parent packages, which can
+            # cause problems when importing fails for some reason.
+            #
+            # Try to work around this by inserting a fake module object
+            # in sys.modules and retrying.
+            #
+            # The parent can be found, and is a package with an __init__.py,
+            # unless the node for the parent is not the result of
+            # node_for_spec (but for example of an implied action or hook),
+            # or the parent is not a package.
+            parent = module_name.rpartition(".")[0]
+            spec = None
+            if parent and parent not in sys.modules:
+                try:
+                    spec = find_spec(parent)
+                except (Exception, SystemExit):
+                    pass
 
-                else:
-                    node = self._create_missing_module(importing_module, module_name)
-                    return node
-            else:
+            if spec is None or spec.submodule_search_locations is None:
                 node = self._create_missing_module(importing_module, module_name)
                 return node
 
+            path = spec.origin
+            assert path is not None
+            assert path.rpartition(os.sep)[-1].startswith("__init__."), path
+            path = os.path.dirname(path)
+            sys.modules[parent] = cast(ModuleType, FakePackage([path]))
+            return self._load_module(importing_module, module_name)
+
         node, imports = node_for_spec(spec, sys.path)
 
         if node.name != module_name:
-- 
2.43.0


From 06d96c2b7c92631f2b61d3a1db777afc7da87066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:19 +0000
Subject: [PATCH 12/50] fix: names that are imported more than once in a
 from-import are all used

---
 modulegraph2/_ast_tools.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/modulegraph2/_ast_tools.py b/modulegraph2/_ast_tools.py
index 06bce45..c705c12 100644
--- a/modulegraph2/_ast_tools.py
+++ b/modulegraph2/_ast_tools.py
@@ -52,14 +52,20 @@ def extract_ast_info(node: ast.AST) -> Iterator[ImportInfo]:
                 )
 
         elif isinstance(node, ast.ImportFrom):
-            yield create_importinfo(
-                (node.module or "", None),
-                {(nm.name, nm.asname) for nm in node.names},
-                node.level,
-                in_def,
-                in_if,
-                in_tryexcept,
-            )
+            # A name can be imported more than once using different "as" clauses,
+            # but there can only be one item for a name in an ImportInfo.
+            names = [(nm.name, nm.asname) for nm in node.names]
+            while names:
+                fromlist = dict(names)
+                yield create_importinfo(
+                    (node.module or "", None),
+                    fromlist.items(),
+                    node.level,
+                    in_def,
+                    in_if,
+                    in_tryexcept,
+                )
+                names = [nm for nm in names if fromlist[nm[0]] != nm[1]]
 
         elif isinstance(node, ast.If):
             for child in ast.iter_child_nodes(node):
-- 
2.43.0


From 04c50b2c36703ce1f691e201a9c5d27e0c04a3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:27 +0000
Subject: [PATCH 13/50] fix: names that are declared global in a class body are
 global names

---
 modulegraph2/_bytecode_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_bytecode_tools.py b/modulegraph2/_bytecode_tools.py
index f9ef801..bdb562f 100644
--- a/modulegraph2/_bytecode_tools.py
+++ b/modulegraph2/_bytecode_tools.py
@@ -130,7 +130,7 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
             "STORE_NAME",
             "STORE_GLOBAL",
         ):
-            if is_class_code or is_function_code and inst.opname == "STORE_NAME":
+            if inst.opname == "STORE_NAME" and (is_class_code or is_function_code):
                 continue
 
             const_offset = inst.arg
-- 
2.43.0


From bfee69cb897aaa2eb208a29075a601ca297a43fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:17 +0000
Subject: [PATCH 14/50] fix: class bodies that are closures or have type
 parameters are not functions

---
 modulegraph2/_bytecode_tools.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/modulegraph2/_bytecode_tools.py b/modulegraph2/_bytecode_tools.py
index bdb562f..56260f8 100644
--- a/modulegraph2/_bytecode_tools.py
+++ b/modulegraph2/_bytecode_tools.py
@@ -160,18 +160,25 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
             assert const_offset is not None
 
             if sys.version_info[:2] >= (3, 11):
-                if (
-                    offset >= 2
-                    and instructions[offset - 2].opname == "LOAD_BUILD_CLASS"
-                ):
+                # Instruction before the code object is loaded, skipping the
+                # tuple with cells when the code object is a closure.
+                start = offset - 2
+                if start >= 0 and instructions[start].opname == "BUILD_TUPLE":
+                    start -= (instructions[start].arg or 0) + 1
+
+                if start >= 0 and instructions[start].opname == "LOAD_BUILD_CLASS":
                     class_codes.add(code.co_consts[const_offset])
                 elif (
-                    offset >= 3
-                    and instructions[offset - 2].opname == "PUSH_NULL"
-                    and instructions[offset - 3].opname == "LOAD_BUILD_CLASS"
+                    start >= 1
+                    and instructions[start].opname == "PUSH_NULL"
+                    and instructions[start - 1].opname == "LOAD_BUILD_CLASS"
                 ):
                     class_codes.add(code.co_consts[const_offset])
-                else:
+                elif not code.co_consts[const_offset].co_name.startswith(
+                    "<generic parameters of "
+                ):
+                    # The scope for type parameters (PEP 695) is not a function
+                    # in the source code, and is executed immediately.
                     func_codes.add(code.co_consts[const_offset])
             else:
                 if (
-- 
2.43.0


From 9981786394155f6f03e4a5c2adc99c1773bb7d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:23 +0000
Subject: [PATCH 15/50] fix: names imported in a function or class body are not
 global names

---
 modulegraph2/_modulegraph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 8f7639b..34db73c 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -978,7 +978,12 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             if import_info.import_names and isinstance(
                 imported_module, (Package, NamespacePackage, Module)
             ):
-                importing_module.globals_written.update(import_info.import_names)
+                init_module = getattr(importing_module, "init_module", importing_module)
+                if init_module.code is None:
+                    # The names that are bound by importing_module were not
+                    # collected from its byte code.
+                    importing_module.globals_written.update(import_info.import_names)
+
                 for nm in import_info.import_names:
                     if nm in imported_module.globals_written:
                         # Name exists as a global in the imported module,
-- 
2.43.0


From b50f372d0cae7357c50b67e548b9ac0f4493ed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:26 +0000
Subject: [PATCH 16/50] fix: link missing modules to their package regardless
 of the first import

---
 modulegraph2/_modulegraph.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 34db73c..6352b1b 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -814,11 +814,21 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         node: BaseNode | None = None
         parent_node: BaseNode | None
 
+        containing_package, _ = split_package(module_name)
+
         node = self._find_module(module_name)
         if node is not None:
+            if (
+                isinstance(node, MissingModule)
+                and link_missing_to_parent
+                and containing_package is not None
+                and containing_package in self
+            ):
+                # Not linked yet when first found in a from-import
+                self.add_edge(node, containing_package, DEFAULT_DEPENDENCY)
+
             return node
 
-        containing_package, _ = split_package(module_name)
         if containing_package is not None:
             parent_node = self._find_or_load_module(
                 importing_module, containing_package
-- 
2.43.0


From a0a98d1583577d33b597b0c46d89e2ce71e83ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:12 +0000
Subject: [PATCH 17/50] fix: find modules that are added to sys.modules by
 their package on first use

---
 modulegraph2/_utilities.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_utilities.py b/modulegraph2/_utilities.py
index 0ec06ab..b90d8bb 100644
--- a/modulegraph2/_utilities.py
+++ b/modulegraph2/_utilities.py
@@ -57,10 +57,15 @@ def find_spec(name: str) -> ModuleSpec | None:
 
     This is :func:`importlib.util.find_spec`, but also works for modules
     in a zipfile that cannot be compiled: the zipimporter compiles
-    a module while creating its spec.
+    a module while creating its spec, and for modules that are added to
+    :data:`sys.modules` by their package: the package is imported
+    after looking for the module in :data:`sys.modules`.
     """
     try:
-        return importlib.util.find_spec(name)
+        spec = importlib.util.find_spec(name)
+        if spec is None and name in sys.modules:
+            spec = importlib.util.find_spec(name)
+        return spec
     except SyntaxError:
         parent, _, tail = name.rpartition(".")
         if parent and parent not in sys.modules:
-- 
2.43.0


From acfa3b060a2ebd169d895fe98a7fb50e52579481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:16 +0000
Subject: [PATCH 18/50] fix: report an encoding error in a script as
 SyntaxError, as documented

---
 modulegraph2/_modulegraph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 6352b1b..d7393f9 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -717,7 +717,11 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         with open(script_path, "rb") as fp:
             source_bytes = fp.read()
 
-        source_code = importlib.util.decode_source(source_bytes)
+        try:
+            source_code = importlib.util.decode_source(source_bytes)
+        except (UnicodeError, LookupError) as exc:
+            raise SyntaxError(str(exc)) from exc
+
         ast_node = compile(
             source_code,
             os.fspath(script_path),
-- 
2.43.0


From 58249d2bbd3d716ec915086d40585927c1975256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:16 +0000
Subject: [PATCH 19/50] fix: modules that cannot be loaded for other reasons
 than a syntax error are invalid

---
 modulegraph2/_graphbuilder.py | 44 +++++++++++------------------------
 1 file changed, 13 insertions(+), 31 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 400cf20..4aec7de 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -232,33 +232,17 @@ def node_for_spec(
         # Likewise for _frozen_importlib_external._NamespaceLoader
 
         inspect_loader = cast(importlib.abc.InspectLoader, loader)
+        ast_imports: Iterable[ImportInfo] | None = None
+        node_type: type[Module] | None = None
+
+        # Modules can be invalid in other ways than having a syntax error, such as
+        # an encoding error in the source code, source code that is too complex for
+        # the compiler, and byte code that is corrupt or for another Python version.
+
         try:
             source_code = inspect_loader.get_source(spec.name)
-        except SyntaxError:
-            node = InvalidModule(
-                name=spec.name,
-                loader=loader,
-                distribution=(
-                    distribution_for_file(spec.origin, path)
-                    if spec.origin is not None
-                    and loader != importlib.machinery.FrozenImporter
-                    else None
-                ),
-                extension_attributes={},
-                filename=(
-                    pathlib.Path(spec.origin)
-                    if spec.origin is not None
-                    and loader != importlib.machinery.FrozenImporter
-                    else None
-                ),
-                globals_written=set(),
-                globals_read=set(),
-                code=None,
-            )
-            return node, []
-
-        ast_imports: Iterable[ImportInfo] | None
-        node_type: type[Module] | None = None
+        except Exception:
+            node_type = InvalidModule
 
         if source_code is not None:
             filename = spec.origin
@@ -272,25 +256,23 @@ def node_for_spec(
                     flags=ast.PyCF_ONLY_AST,
                     dont_inherit=True,
                 )
-            except SyntaxError:
+            except Exception:
                 node_type = InvalidModule
-                ast_imports = None
 
             else:
                 ast_imports = extract_ast_info(ast_node)
-        else:
-            ast_imports = None
 
         try:
             code = inspect_loader.get_code(spec.name)
             assert code is not None
-            bytecode_imports, names_written, names_read = extract_bytecode_info(code)
-        except SyntaxError:
+        except Exception:
             node_type = InvalidModule
             bytecode_imports = []
             names_written = set()
             names_read = set()
             code = None
+        else:
+            bytecode_imports, names_written, names_read = extract_bytecode_info(code)
 
         if node_type is None:
             if loader == importlib.machinery.FrozenImporter:
-- 
2.43.0


From 8f73d2c8777a02b80a009c1e8805d07b8b561167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:16 +0000
Subject: [PATCH 20/50] fix: find modules in a zipfile that cannot be loaded,
 and use the encoding of their source code

---
 modulegraph2/_graphbuilder.py |  3 +-
 modulegraph2/_utilities.py    | 94 ++++++++++++++++++++++++++---------
 2 files changed, 73 insertions(+), 24 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 4aec7de..67cd659 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -33,6 +33,7 @@ from ._nodes import (
     Script,
     SourceModule,
 )
+from ._utilities import get_source
 
 SIX_MOVES_GLOBALS = {"filter", "input", "map", "range", "xrange", "zip"}
 
@@ -240,7 +241,7 @@ def node_for_spec(
         # the compiler, and byte code that is corrupt or for another Python version.
 
         try:
-            source_code = inspect_loader.get_source(spec.name)
+            source_code = get_source(inspect_loader, spec.name)
         except Exception:
             node_type = InvalidModule
 
diff --git a/modulegraph2/_utilities.py b/modulegraph2/_utilities.py
index b90d8bb..5f3e6ca 100644
--- a/modulegraph2/_utilities.py
+++ b/modulegraph2/_utilities.py
@@ -8,6 +8,7 @@ import importlib.util
 import os
 import sys
 import zipimport
+from importlib.abc import InspectLoader
 from importlib.machinery import ModuleSpec
 
 
@@ -56,7 +57,7 @@ def find_spec(name: str) -> ModuleSpec | None:
     Return the spec for module *name*
 
     This is :func:`importlib.util.find_spec`, but also works for modules
-    in a zipfile that cannot be compiled: the zipimporter compiles
+    in a zipfile that cannot be loaded: the zipimporter loads the code for
     a module while creating its spec, and for modules that are added to
     :data:`sys.modules` by their package: the package is imported
     after looking for the module in :data:`sys.modules`.
@@ -65,32 +66,79 @@ def find_spec(name: str) -> ModuleSpec | None:
         spec = importlib.util.find_spec(name)
         if spec is None and name in sys.modules:
             spec = importlib.util.find_spec(name)
-        return spec
-    except SyntaxError:
-        parent, _, tail = name.rpartition(".")
-        if parent and parent not in sys.modules:
-            # Importing the parent package failed
+
+    except Exception:
+        spec = find_zip_spec(name)
+        if spec is None:
             raise
 
-        for entry in sys.modules[parent].__path__ if parent else sys.path:
-            importer = sys.path_importer_cache.get(entry)
-            if not isinstance(importer, zipimport.zipimporter):
-                continue
-
-            try:
-                is_package = importer.is_package(name)
-            except zipimport.ZipImportError:
-                continue
-
-            origin = os.path.join(importer.archive, importer.prefix, tail)
-            spec = ModuleSpec(name, importer, is_package=is_package)
-            if spec.submodule_search_locations is not None:
-                spec.submodule_search_locations.append(origin)
-                origin = os.path.join(origin, "__init__")
+    else:
+        if spec is not None and spec.origin == "<unknown>":
+            # The zipimporter ignores some errors
+            return find_zip_spec(name) or spec
+
+    return spec
+
+
+def find_zip_spec(name: str) -> ModuleSpec | None:
+    """
+    Return the spec for module *name*  when that's in a zipfile,
+    without loading the module.
+    """
+    parent, _, tail = name.rpartition(".")
+    if name in sys.modules or (parent and parent not in sys.modules):
+        # Importing the parent package failed
+        return None
+
+    for entry in getattr(sys.modules[parent], "__path__", ()) if parent else sys.path:
+        importer = sys.path_importer_cache.get(entry)
+        if not isinstance(importer, zipimport.zipimporter):
+            continue
+
+        try:
+            is_package = importer.is_package(name)
+        except zipimport.ZipImportError:
+            continue
+
+        origin = os.path.join(importer.archive, importer.prefix, tail)
+        spec = ModuleSpec(name, importer, is_package=is_package)
+        if spec.submodule_search_locations is not None:
+            spec.submodule_search_locations.append(origin)
+            origin = os.path.join(origin, "__init__")
+
+        try:
+            importer.get_data(origin + ".py")
+        except OSError:
+            spec.origin = origin + ".pyc"
+        else:
             spec.origin = origin + ".py"
-            return spec
+        return spec
+
+    return None
+
+
+def get_source(loader: InspectLoader, name: str) -> str | None:
+    """
+    Return the source code for *name*, or None when the source
+    code is not available.
+
+    This is the method *get_source* of the loader, but also works for
+    modules in a zipfile that are not encoded in UTF-8 or that
+    have a byte order mark.
+    """
+    if isinstance(loader, zipimport.zipimporter):
+        path = os.path.join(loader.archive, loader.prefix, name.rpartition(".")[2])
+        if loader.is_package(name):
+            path = os.path.join(path, "__init__")
+
+        try:
+            source_bytes = loader.get_data(path + ".py")
+        except OSError:
+            return None
+
+        return importlib.util.decode_source(source_bytes)
 
-        raise
+    return loader.get_source(name)
 
 
 class FakePackage:
-- 
2.43.0


From 3f429aed4404314733c01656e6fc8f02165523a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:23 +0000
Subject: [PATCH 21/50] fix: files that cannot be imported are not in the
 import names of a distribution

---
 modulegraph2/_distributions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index a88d681..b0ac02c 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -111,12 +111,16 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
                     continue
 
                 if relpath.endswith("/__init__" + suffix):
-                    import_names.append(
-                        relpath[: -len("/__init__") + -len(suffix)].replace("/", ".")
-                    )
+                    parts = relpath[: -len("/__init__") + -len(suffix)].split("/")
 
                 else:
-                    import_names.append(relpath[: -len(suffix)].replace("/", "."))
+                    parts = relpath[: -len(suffix)].split("/")
+
+                # Files outside of the search path entry (such as scripts) and
+                # files with a dot in the name, or in a directory with a dot
+                # in the name, are not importable.
+                if all(part and "." not in part for part in parts):
+                    import_names.append(".".join(parts))
 
                 break
 
-- 
2.43.0


From b38126192a892f3f9c023e574ccd5abb5ec76d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:23 +0000
Subject: [PATCH 22/50] fix: an invalid dist-info directory does not hide other
 distributions

---
 modulegraph2/_distributions.py | 37 +++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index b0ac02c..aa74ab8 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -79,11 +79,13 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
         info = BytesParser().parse(meta_fp)
 
     name = info["Name"]
-    assert isinstance(name, str)
     version = info["Version"]
-    assert isinstance(version, str)
+    if not isinstance(name, str) or not isinstance(version, str):
+        raise ValueError(f"Invalid metadata in {distribution_file!r}")
 
-    with open(os.path.join(distribution_file, "RECORD")) as record_fp:
+    with open(
+        os.path.join(distribution_file, "RECORD"), encoding="utf-8"
+    ) as record_fp:
         all_suffixes = [".py", ".pyc"] + EXTENSION_SUFFIXES
 
         for ln in record_fp:
@@ -146,23 +148,30 @@ def all_distributions(
 
     for entry in path:
         try:
-            for fname in os.listdir(entry):
-                if not fname.endswith(".dist-info"):
-                    continue
+            names = os.listdir(entry)
+        except OSError:
+            continue
 
-                dist_name = os.path.join(entry, fname)
+        for fname in names:
+            if not fname.endswith(".dist-info"):
+                continue
 
-                try:
-                    dist = _cached_distributions[dist_name]
+            dist_name = os.path.join(entry, fname)
 
-                except KeyError:
+            try:
+                dist = _cached_distributions[dist_name]
+
+            except KeyError:
+                try:
                     dist = create_distribution(dist_name)
-                    _cached_distributions[dist_name] = dist
+                except (OSError, ValueError):
+                    # Incomplete or invalid, for example left behind
+                    # by an interrupted uninstall.
+                    continue
 
-                yield dist
+                _cached_distributions[dist_name] = dist
 
-        except OSError:
-            continue
+            yield dist
 
 
 def distribution_for_file(
-- 
2.43.0


From 552cde6a3fb7175cc25d703b76da9cd2ac5aeda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:23 +0000
Subject: [PATCH 23/50] fix: find the distribution of modules in relative
 entries of sys.path

---
 modulegraph2/_distributions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index aa74ab8..7f923f9 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -147,6 +147,10 @@ def all_distributions(
         path = sys.path
 
     for entry in path:
+        # Like the import system: filenames of modules are absolute and
+        # an empty string is the current directory.
+        entry = os.path.abspath(entry)
+
         try:
             names = os.listdir(entry)
         except OSError:
-- 
2.43.0


From 6d95b6d1013c16be1509f464e31124f733913d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:30 +0000
Subject: [PATCH 24/50] fix: namespace packages in packages that cannot be
 imported do not abort building the graph

---
 modulegraph2/_modulegraph.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index d7393f9..7af0220 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -621,7 +621,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             # Try to work around this by inserting a fake module object
             # in sys.modules and retrying.
             #
-            # The parent can be found, and is a package with an __init__.py,
+            # The parent can be found and is a package,
             # unless the node for the parent is not the result of
             # node_for_spec (but for example of an implied action or hook),
             # or the parent is not a package.
@@ -637,11 +637,8 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 node = self._create_missing_module(importing_module, module_name)
                 return node
 
-            path = spec.origin
-            assert path is not None
-            assert path.rpartition(os.sep)[-1].startswith("__init__."), path
-            path = os.path.dirname(path)
-            sys.modules[parent] = cast(ModuleType, FakePackage([path]))
+            path = list(spec.submodule_search_locations)
+            sys.modules[parent] = cast(ModuleType, FakePackage(path))
             return self._load_module(importing_module, module_name)
 
         node, imports = node_for_spec(spec, sys.path)
-- 
2.43.0


From c7b7b2fb3250dc8c1f914e9348dfac8991a83f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:00 +0000
Subject: [PATCH 25/50] fix: find the distribution of modules when an entry of
 sys.path contains '..'

---
 modulegraph2/_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index 7f923f9..51f62af 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -57,7 +57,7 @@ class PyPIDistribution:
         Returns:
            True if *filename* is part of this distribution, otherwise False.
         """
-        return os.fspath(filename) in self.files
+        return os.path.normpath(os.fspath(filename)) in self.files
 
 
 def create_distribution(distribution_file: str) -> PyPIDistribution:
-- 
2.43.0


From 449daf18673508848d092082bcbdd4280f30a855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:21 +0000
Subject: [PATCH 26/50] fix: the distribution of a file does not depend on the
 order of directory listings

---
 modulegraph2/_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index 51f62af..9ca623e 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -152,7 +152,7 @@ def all_distributions(
         entry = os.path.abspath(entry)
 
         try:
-            names = os.listdir(entry)
+            names = sorted(os.listdir(entry))
         except OSError:
             continue
 
-- 
2.43.0


From 1eda84193b6b4c4deecf1de832d0a0c1313a62ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 27/50] fix: detect data files in all subdirectories of a
 package

---
 modulegraph2/_graphbuilder.py | 89 +++++++++++++++++++++--------------
 1 file changed, 54 insertions(+), 35 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 67cd659..adadc7d 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -3,10 +3,12 @@ Tools for building the module graph
 """
 
 import ast
+import errno
 import importlib
 import importlib.abc
 import importlib.machinery
 import importlib.util
+import os
 import pathlib
 import sys
 import zipfile
@@ -109,52 +111,61 @@ def _contains_datafiles(directory: pathlib.Path):
     This works both when *directory* is a path on a filesystem
     and when *directory* points into a zipped directory.
     """
-    try:
-        for p in directory.iterdir():
-            if any(p.name.endswith(sfx) for sfx in importlib.machinery.all_suffixes()):
-                # Python module is not a data file
+    ignored = ("__pycache__", ".hg", ".svn", ".hg")
+    suffixes = tuple(importlib.machinery.all_suffixes())
+
+    if directory.is_dir():
+        todo = [directory]
+        seen = set()
+        while todo:
+            current = todo.pop()
+            real = os.path.realpath(current)
+            if real in seen:
+                # Symbolic link
                 continue
+            seen.add(real)
 
-            elif p.name in ("__pycache__", ".hg", ".svn", ".hg"):
+            try:
+                entries = list(current.iterdir())
+            except OSError:
+                # Not readable, or removed in the meantime
                 continue
 
-            elif p.is_dir():
-                return _contains_datafiles(p)
+            for p in entries:
+                if p.name in ignored:
+                    continue
 
-            else:
-                return True
+                elif p.is_dir():
+                    todo.append(p)
 
-    except (NotADirectoryError, FileNotFoundError):
-        names: list[str] = []
-        while not directory.exists():
-            names.insert(0, directory.name)
-            directory = directory.parent
+                elif not p.name.endswith(suffixes):
+                    # Python modules are not data files
+                    return True
 
-        if not zipfile.is_zipfile(directory):
-            raise
+        return False
 
-        path = "/".join(names) + "/"
+    names: list[str] = []
+    while not directory.exists():
+        names.insert(0, directory.name)
+        directory = directory.parent
 
-        with zipfile.ZipFile(directory) as zf:
-            for nm in zf.namelist():
-                if nm.startswith(path):
-                    if any(
-                        part in ("__pycache__", ".hg", ".svn", ".hg")
-                        for part in nm.split("/")
-                    ):
-                        continue
+    if not zipfile.is_zipfile(directory):
+        raise FileNotFoundError(
+            errno.ENOENT, os.strerror(errno.ENOENT), os.path.join(directory, *names)
+        )
+
+    path = "/".join(names) + "/"
 
-                    elif any(
-                        nm.endswith(sfx) for sfx in importlib.machinery.all_suffixes()
-                    ):
-                        continue
+    with zipfile.ZipFile(directory) as zf:
+        for nm in zf.namelist():
+            if not nm.startswith(path) or nm.endswith("/"):
+                continue
 
-                    else:
-                        info = zf.getinfo(nm)
-                        if info.is_dir():
-                            continue
+            if any(part in ignored for part in nm[len(path) :].split("/")):
+                continue
 
-                        return True
+            if not nm.endswith(suffixes):
+                return True
 
     return False
 
@@ -478,6 +489,14 @@ def node_for_spec(
         else:
             node_class = Package
 
+        has_data_files = False
+        if node_file is not None:
+            try:
+                has_data_files = _contains_datafiles(node_file)
+            except OSError:
+                # Not on the filesystem, and the loader is not the zipimporter
+                pass
+
         package = node_class(
             name=node.name,
             loader=node.loader,
@@ -486,7 +505,7 @@ def node_for_spec(
             filename=node_file,
             init_module=node,
             search_path=[pathlib.Path(loc) for loc in spec.submodule_search_locations],
-            has_data_files=node_file is not None and _contains_datafiles(node_file),
+            has_data_files=has_data_files,
             namespace_type=namespace_type,
         )
 
-- 
2.43.0


From 4319e3aaab5a8ce4d0356f67e4aa80fc923b72da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 28/50] fix: escape names in the HTML and Graphviz output,
 links in HTML go to sections that exist

---
 modulegraph2/_dotbuilder.py  | 17 +++++++++++++----
 modulegraph2/_htmlbuilder.py | 32 +++++++++++++++++++++-----------
 2 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/modulegraph2/_dotbuilder.py b/modulegraph2/_dotbuilder.py
index e8605ad..9c56329 100644
--- a/modulegraph2/_dotbuilder.py
+++ b/modulegraph2/_dotbuilder.py
@@ -15,6 +15,15 @@ from objectgraph import EDGE_TYPE, NODE_TYPE  # , ObjectGraph
 from ._modulegraph import ModuleGraph
 
 
+def quoted(value: str) -> str:
+    """
+    Return *value* as a quoted string in the format expected
+    by Graphviz.
+    """
+    value = value.replace("\\", "\\\\").replace('"', '\\"')
+    return f'"{value}"'
+
+
 def format_attributes(callable, *args):
     """
     Format the results of *callable* in the format expected
@@ -53,22 +62,22 @@ def export_to_dot(
 
     for source in graph.iter_graph():
         print(
-            f'    "{source.identifier}"{format_attributes(format_node, source)}',
+            f"    {quoted(source.identifier)}{format_attributes(format_node, source)}",
             file=file,
         )
         for edge, target in graph.outgoing(source):
             print(
-                f'    "{source.identifier}" -> "{target.identifier}"{format_attributes(format_edge, source, target, edge)}',  # noqa: B950
+                f"    {quoted(source.identifier)} -> {quoted(target.identifier)}{format_attributes(format_edge, source, target, edge)}",  # noqa: B950
                 file=file,
             )
 
     for idx, (group_name, group_icon, group_items) in enumerate(group_nodes(graph)):
         print(f"subgraph cluster_{idx} {{", file=file)
-        print(f'   label = "{group_name}"', file=file)
+        print(f"   label = {quoted(group_name)}", file=file)
         print(f"   shape = {group_icon}", file=file)
         print("   style=filled; color=lightgray", file=file)
         for node in group_items:
-            print(f'   "{node.identifier}"', file=file)
+            print(f"   {quoted(node.identifier)}", file=file)
 
         print("}", file=file)
         print(file=file)
diff --git a/modulegraph2/_htmlbuilder.py b/modulegraph2/_htmlbuilder.py
index 2caf3c7..bb74039 100644
--- a/modulegraph2/_htmlbuilder.py
+++ b/modulegraph2/_htmlbuilder.py
@@ -7,6 +7,7 @@ Support code for generating HTML output from a module graph
     package, with modulegraph2 specific functionality in this module.
 """
 
+import html
 import operator
 import textwrap
 from typing import TextIO
@@ -32,6 +33,18 @@ HTML_SUFFIX = textwrap.dedent(
 )
 
 
+def format_link(node) -> str:
+    """
+    Return a link to the section for *node*, or just the name for
+    nodes that don't have one.
+    """
+    name = html.escape(node.name)
+    if not isinstance(node, BaseNode):
+        return name
+
+    return f'<a href="#{html.escape(node.identifier)}">{name}</a>'
+
+
 def export_to_html(file: TextIO, graph: ModuleGraph) -> None:
     """
     Write an HTML version of the *graph* to *fp*".
@@ -52,29 +65,26 @@ def export_to_html(file: TextIO, graph: ModuleGraph) -> None:
             continue
 
         print(
-            f'<a name="{node.identifier}"><h2>{type(node).__name__} {node.name}</h2></a>',  # noqa:E501, B950
+            f'<a name="{html.escape(node.identifier)}"><h2>{type(node).__name__} {html.escape(node.name)}</h2></a>',  # noqa:E501, B950
             file=file,
         )
         outgoing = list(graph.outgoing(node))
         if outgoing:
             print("<p>Depends on:", file=file)
             print(
-                ", ".join(
-                    f'<a href="#{target.identifier}">{target.name}</a>'
-                    for _, target in outgoing
-                ),
+                ", ".join(format_link(target) for _, target in outgoing),
                 file=file,
             )
 
-        incoming = list(graph.incoming(node))
+        incoming = [
+            (edge, source)
+            for edge, source in graph.incoming(node)
+            if source.identifier in reachable
+        ]
         if incoming:
             print("<p>Used by:", file=file)
             print(
-                ", ".join(
-                    f'<a href="#{source.identifier}">{source.name}</a>'
-                    for _, source in incoming
-                    if source.identifier in reachable
-                ),
+                ", ".join(format_link(source) for _, source in incoming),
                 file=file,
             )
 
-- 
2.43.0


From 2ebaf3386e9cb7f0e343bd921f6a57075dfe53cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 29/50] fix: iter_graph works for graphs with import chains
 that are longer than the recursion limit

---
 modulegraph2/_modulegraph.py | 38 ++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 7af0220..61146aa 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -92,6 +92,44 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
     #
     # Querying
     #
+    def iter_graph(
+        self,
+        *,
+        node: str | BaseNode | PyPIDistribution | None = None,
+        _visited: set | None = None,
+    ) -> Iterator[BaseNode | PyPIDistribution]:
+        """
+        Yield all nodes in the graph reachable from *node*
+        or any of the graph roots.
+
+        This is not recursive because the import chains in the
+        graph can be longer than the maximum recursion depth.
+
+        Args:
+          node: The node or node identifier used to start iterating. Defaults
+                to using the graph roots.
+        """
+        visited = set() if _visited is None else _visited
+
+        todo: list[Iterator[BaseNode | PyPIDistribution]]
+        if node is None:
+            todo = [self.roots()]
+        else:
+            start_node = self.find_node(node)
+            if start_node is None:
+                raise KeyError(f"Start node {node!r} not found")
+            todo = [iter([start_node])]
+
+        while todo:
+            for current in todo[-1]:
+                if current.identifier not in visited:
+                    visited.add(current.identifier)
+                    yield current
+                    todo.append(target for _, target in self.outgoing(current))
+                    break
+            else:
+                todo.pop()
+
     def distributions(self, reachable: bool = True) -> Iterator[PyPIDistribution]:
         """
         Yield all distributions used in the graph.
-- 
2.43.0


From 60a05805647da1c75169b4133181f569ee335794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 30/50] fix: relative imports and names of attributes in
 add_dependencies_for_source

---
 modulegraph2/_modulegraph.py | 82 ++++++++++++++++++++++++------------
 1 file changed, 55 insertions(+), 27 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 61146aa..7c3d9cd 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -242,9 +242,29 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             dont_inherit=True,
         )
         for info in extract_ast_info(ast_node):
-            self.add_module(info.import_module)
+            if info.import_level > 0:
+                # The source code is not part of a package
+                self.add_root(self._invalid_relative_import(info))
+                self._run_stack()
+                continue
+
+            module = self._resolve_alias(self.add_module(info.import_module))
+            if not isinstance(module, (Package, NamespacePackage)):
+                # The names are not modules
+                continue
+
             for name in info.import_names:
-                self.add_module(f"{info.import_module}.{name}")
+                node = self._find_or_load_module(
+                    None, f"{module.identifier}.{name}", link_missing_to_parent=False
+                )
+                if isinstance(node, MissingModule):
+                    if name in module.globals_written:
+                        # Name is a global in the package
+                        continue
+                    self.add_edge(node, module, DEFAULT_DEPENDENCY)
+
+                self.add_root(node)
+                self._run_stack()
 
     def add_distribution(
         self, distribution: PyPIDistribution | str
@@ -896,6 +916,36 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
 
         return node
 
+    def _invalid_relative_import(self, import_info: ImportInfo) -> BaseNode:
+        """
+        Return the node for a relative import that points to outside
+        of a top-level package, creating that node if necessary.
+        """
+        invalid_name = ("." * import_info.import_level) + import_info.import_module
+        node = self._find_module(invalid_name)
+        if node is None:
+            node = InvalidRelativeImport(invalid_name)
+            self.add_node(node)
+            self._process_import_list(node, ())
+
+        else:
+            assert isinstance(node, InvalidRelativeImport)  # pragma: nocover
+
+        return node
+
+    def _resolve_alias(self, node: BaseNode) -> BaseNode:
+        """
+        Return the node that an alias refers to, which can be another alias.
+        """
+        aliases: set[str] = set()
+        while isinstance(node, AliasNode) and node.identifier not in aliases:
+            aliases.add(node.identifier)
+            actual_node = self._find_module(node.actual_module)
+            assert actual_node is not None
+            node = actual_node
+
+        return node
+
     def _process_import(
         self, importing_module: BaseNode, import_info: ImportInfo
     ) -> None:
@@ -926,20 +976,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             )
             if importing_package is None:
                 # Invalid relative import: points to outside of a top-level package
-                invalid_name = (
-                    "." * import_info.import_level
-                ) + import_info.import_module
-                node = self._find_module(invalid_name)
-                if node is None:
-                    node = InvalidRelativeImport(
-                        ("." * import_info.import_level) + import_info.import_module
-                    )
-                    self.add_node(node)
-                    self._process_import_list(node, ())
-
-                else:
-                    assert isinstance(node, InvalidRelativeImport)  # pragma: nocover
-
+                node = self._invalid_relative_import(import_info)
                 self.add_edge(
                     importing_module, node, from_importinfo(import_info, False, None)
                 )
@@ -1007,17 +1044,8 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         """
         assert isinstance(importing_module, (Module, Package, Script))
 
-        # Names are imported from the module that an alias refers to, which
-        # can be another alias.
-        aliases: set[str] = set()
-        while (
-            isinstance(imported_module, AliasNode)
-            and imported_module.identifier not in aliases
-        ):
-            aliases.add(imported_module.identifier)
-            node = self._find_module(imported_module.actual_module)
-            assert node is not None
-            imported_module = node
+        # Names are imported from the module that an alias refers to
+        imported_module = self._resolve_alias(imported_module)
 
         if import_info.star_import:
             if isinstance(imported_module, (Package, Module)):
-- 
2.43.0


From 7919e77fbef56aa3c062669f1e00c3ccc3746bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 31/50] fix: SWIG modules outside packages and in packages that
 cannot be imported do not abort building the graph

---
 modulegraph2/_swig_support.py | 54 +++++++++++------------------------
 1 file changed, 17 insertions(+), 37 deletions(-)

diff --git a/modulegraph2/_swig_support.py b/modulegraph2/_swig_support.py
index 12b80ca..a267028 100644
--- a/modulegraph2/_swig_support.py
+++ b/modulegraph2/_swig_support.py
@@ -2,17 +2,15 @@
 Support code that deals with SWIG.
 """
 
-import importlib.util
+import importlib.machinery
 import os
 import sys
-from types import ModuleType
-from typing import cast
 
 import modulegraph2
 
+from ._distributions import PyPIDistribution
 from ._graphbuilder import node_for_spec
-from ._nodes import BaseNode, ExtensionModule, Module, Package
-from ._utilities import FakePackage
+from ._nodes import BaseNode, ExtensionModule, Module, NamespacePackage, Package
 
 # SWIG uses an absolute import to find an extension
 # module located in a package (basically a Python 2
@@ -61,40 +59,22 @@ def swig_missing_hook(
     # If the importing_module is a package the relative import should
     # be done relative to that package, otherwise use the parent
     # package.
+    package: BaseNode | PyPIDistribution | None
     if isinstance(importing_module, Package):
-        to_import = importing_module.name
+        package = importing_module
     else:
-        to_import = importing_module.name.rpartition(".")[0]
-
-    try:
-        spec = importlib.util.find_spec("." + missing_name, to_import)
-    except ImportError:
-        # Loading the package may fail if there's and error. This
-        # code assumes that's due to the invalid import by swig and
-        # adjusts sys.modules for that before retrying.
-        #
-        # The fake entry in sys.modules is removed as soon as possible
-        # because the assumption is not generally true and leaving the
-        # fake module might cause problems in the generic code dealing
-        # with simular problems.
-        sp = importlib.util.find_spec(to_import)
-
-        # By this time it must be possible to locate the spec,
-        # as we were already passed as proper module node.
-        #
-        # The origin should be set as well, the ImportError shouldn't
-        # happen for implicit namespace packages (which don't have
-        # an __init__.py and no origin)
-        assert sp is not None
-        assert sp.origin is not None
-
-        sys.modules[to_import] = cast(
-            ModuleType, FakePackage([sp.origin.rpartition(os.sep)[0]])
-        )
-
-        spec = importlib.util.find_spec("." + missing_name, to_import)
-
-        del sys.modules[to_import]
+        package = graph.find_node(importing_module.name.rpartition(".")[0])
+
+    if not isinstance(package, (Package, NamespacePackage)):
+        # Not in a package
+        return None
+
+    # Look in the search path of the package instead of using
+    # importlib.util.find_spec, because the latter imports the package
+    # and that can fail (for example due to the invalid import by swig)
+    spec = importlib.machinery.PathFinder.find_spec(
+        missing_name, [os.fspath(p) for p in package.search_path]
+    )
 
     if spec is not None:
         node, imports = node_for_spec(spec, sys.path)
-- 
2.43.0


From 8832fb7aa76034e05b799c5bfb87c0edf6321d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 32/50] fix: run post processing hooks for nodes that are
 provided by missing hooks

---
 modulegraph2/_modulegraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 7c3d9cd..28a5553 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -466,6 +466,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         """
         node = self._missing_hook(self, importing_module, module_name)
         if node is not None:
+            self._process_import_list(node, ())
             return node
 
         node = MissingModule(module_name)
-- 
2.43.0


From beb8a1f38a7fec170377c5e8586b94eba3c10d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 33/50] fix: helper modules of mypyc are not roots, chains of
 modules compiled by mypyc can have any length

---
 modulegraph2/_mypyc_support.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/modulegraph2/_mypyc_support.py b/modulegraph2/_mypyc_support.py
index 2f15688..7d7686b 100644
--- a/modulegraph2/_mypyc_support.py
+++ b/modulegraph2/_mypyc_support.py
@@ -8,7 +8,6 @@ import ast
 import modulegraph2
 
 from ._ast_tools import extract_ast_info
-from ._depinfo import DependencyInfo
 from ._nodes import BaseNode, ExtensionModule, Package
 
 # Mypyc compiles Python code in a package to extension
@@ -85,8 +84,7 @@ def mypyc_post_processing_hook(graph: "modulegraph2.ModuleGraph", node: BaseNode
         return
 
     # Add explicit dependency to the mypy helper extension module
-    helper_node = graph.add_module(helper_module)
-    graph.add_edge(node, helper_node, DependencyInfo(False, True, False, None))
+    graph.import_module(node, helper_module)
 
     source_code = source_filename.read_bytes()
 
@@ -107,4 +105,3 @@ def mypyc_post_processing_hook(graph: "modulegraph2.ModuleGraph", node: BaseNode
     # And finally process the dependencies found in the source file.
     if imports:
         graph._process_import_list(node, imports)
-        graph._run_stack()
-- 
2.43.0


From 7fa98cca108f5950189f907f35dde3f157d9d938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 34/50] fix: source of a mypyc module that is too complex for
 the compiler does not abort building the graph

---
 modulegraph2/_mypyc_support.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_mypyc_support.py b/modulegraph2/_mypyc_support.py
index 7d7686b..3575bc0 100644
--- a/modulegraph2/_mypyc_support.py
+++ b/modulegraph2/_mypyc_support.py
@@ -96,7 +96,8 @@ def mypyc_post_processing_hook(graph: "modulegraph2.ModuleGraph", node: BaseNode
             flags=ast.PyCF_ONLY_AST,
             dont_inherit=True,
         )
-    except SyntaxError:
+    except Exception:
+        # Invalid source, or source that is too complex for the compiler
         return
 
     else:
-- 
2.43.0


From a9f10991dc3db102773c199e29cdf0c44c475831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 35/50] fix: names in six.moves that were reported as missing
 modules

---
 modulegraph2/_graphbuilder.py | 17 ++++++++++++-----
 modulegraph2/_modulegraph.py  |  3 ++-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index adadc7d..3e264f1 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -42,11 +42,15 @@ SIX_MOVES_GLOBALS = {"filter", "input", "map", "range", "xrange", "zip"}
 SIX_MOVES_TO = {
     "builtins": "builtins",
     "configparser": "configparser",
+    "collections_abc": "collections.abc",
     "copyreg": "copyreg",
     "cPickle": "pickle",
     "cStringIO": "io",
+    "StringIO": "io",
     "dbm_gnu": "dbm.gnu",
-    "_dummy_thread": "_dummy_thread",
+    "dbm_ndbm": "dbm.ndbm",
+    "_dummy_thread": "_thread",
+    "email_mime_image": "email.mime.image",
     "email_mime_multipart": "email.mime.multipart",
     "email_mime_nonmultipart": "email.mime.nonmultipart",
     "email_mime_text": "email.mime.text",
@@ -66,7 +70,7 @@ SIX_MOVES_TO = {
     "_thread": "_thread",
     "tkinter": "tkinter",
     "tkinter_dialog": "tkinter.dialog",
-    "tkinter_filedialog": "tkinter.FileDialog",
+    "tkinter_filedialog": "tkinter.filedialog",
     "tkinter_scrolledtext": "tkinter.scrolledtext",
     "tkinter_simpledialog": "tkinter.simpledialog",
     "tkinter_ttk": "tkinter.ttk",
@@ -85,10 +89,12 @@ SIX_MOVES_TO = {
     "urllib.request": "urllib.request",
     "urllib.response": "urllib.response",
     "urllib.robotparser": "urllib.robotparser",
+    "urllib_parse": "urllib.parse",
+    "urllib_error": "urllib.error",
     "urllib_robotparser": "urllib.robotparser",
-    "UserDict": "collections.UserDict",
-    "UserList": "collections.UserList",
-    "UserString": "collections.UserString",
+    "UserDict": "collections",
+    "UserList": "collections",
+    "UserString": "collections",
     "winreg": "winreg",
     "xmlrpc_client": "xmlrpc.client",
     "xmlrpc_server": "xmlrpc.server",
@@ -97,6 +103,7 @@ SIX_MOVES_TO = {
     "filterfalse": "itertools",
     "getcwd": "os",
     "getcwdb": "os",
+    "getoutput": "subprocess",
     "intern": "sys",
     "reduce": "functools",
     "reload_module": "importlib",
diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 28a5553..01699fd 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -1122,7 +1122,8 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                                     importing_module, dep_node, DEFAULT_DEPENDENCY
                                 )
                                 continue
-                        elif (
+
+                        if (
                             isinstance(imported_module, Package)
                             and nm in imported_module.globals_written
                         ):
-- 
2.43.0


From 4de65709efe8fd143614d5116bb370e62598f3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 36/50] fix: names of six.moves and vendored modules that are
 not available do not abort building the graph

---
 modulegraph2/_graphbuilder.py | 41 ++++++++++++++++++++++-------------
 modulegraph2/_modulegraph.py  | 14 ++++++++++--
 2 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 3e264f1..22ed736 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -177,6 +177,17 @@ def _contains_datafiles(directory: pathlib.Path):
     return False
 
 
+def find_moved_spec(name: str) -> importlib.machinery.ModuleSpec | None:
+    """
+    Return the spec for module *name*, or None when the module is not
+    available or cannot be located because importing its package fails.
+    """
+    try:
+        return importlib.util.find_spec(name)
+    except (Exception, SystemExit):
+        return None
+
+
 def node_for_spec(
     spec: importlib.machinery.ModuleSpec, path: list[str]
 ) -> tuple[BaseNode, Iterable[ImportInfo]]:
@@ -371,7 +382,7 @@ def node_for_spec(
             except KeyError:
                 return MissingModule(spec.name), ()
 
-            moved_spec = importlib.util.find_spec(actual_name)
+            moved_spec = find_moved_spec(actual_name)
             if moved_spec is None:
                 # The moved-to name doesn't actually exist. This
                 # can happen on systems where parts of the stdlib
@@ -380,9 +391,9 @@ def node_for_spec(
 
             if moved_spec.name == spec.name:
                 print(moved_spec.name, spec.name, actual_name, file=sys.stderr)
-                del sys.modules[actual_name]
+                sys.modules.pop(actual_name, None)
                 importlib.invalidate_caches()
-                moved_spec = importlib.util.find_spec(actual_name)
+                moved_spec = find_moved_spec(actual_name)
                 if moved_spec is None:
                     # The moved-to name doesn't actually exist. This
                     # can happen on systems where parts of the stdlib
@@ -420,16 +431,16 @@ def node_for_spec(
 
         relative_name = spec.name[len(root_name) + 1 :]  # noqa: E203
 
-        try:
-            moved_spec = importlib.util.find_spec(f"{vendor_pkg}.{relative_name}")
-            if moved_spec is not None and moved_spec.name == spec.name:
-                # In pkg_resources the *vendor_pkg* points to the *root_name*
-                # in sys.path. Below is a crude hack to work arount that...
-                del sys.modules[f"{vendor_pkg}.{relative_name}"]
-                importlib.invalidate_caches()
-                moved_spec = importlib.util.find_spec(f"{vendor_pkg}.{relative_name}")
-        except ModuleNotFoundError:
-            moved_spec = importlib.util.find_spec(relative_name)
+        moved_spec = find_moved_spec(f"{vendor_pkg}.{relative_name}")
+        if moved_spec is not None and moved_spec.name == spec.name:
+            # In pkg_resources the *vendor_pkg* points to the *root_name*
+            # in sys.path. Below is a crude hack to work arount that...
+            sys.modules.pop(f"{vendor_pkg}.{relative_name}", None)
+            importlib.invalidate_caches()
+            moved_spec = find_moved_spec(f"{vendor_pkg}.{relative_name}")
+
+        if moved_spec is None:
+            moved_spec = find_moved_spec(relative_name)
 
         if moved_spec is None:
             return MissingModule(f"{vendor_pkg}.{relative_name}"), ()
@@ -445,9 +456,9 @@ def node_for_spec(
         # The distutils_hack loader is used by newer versions of setuptools
         # to fully replace the stdlib version of distutils.
         assert spec.name == "distutils", spec.name
-        del sys.modules["setuptools._distutils"]
+        sys.modules.pop("setuptools._distutils", None)
         importlib.invalidate_caches()
-        moved_spec = importlib.util.find_spec("setuptools._distutils")
+        moved_spec = find_moved_spec("setuptools._distutils")
         if moved_spec is None:  # pragma: no branch
             return MissingModule("distutils"), ()  # pragma: no cover
         assert (
diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 01699fd..a7a86c9 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -711,7 +711,12 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             alias_node = AliasNode(module_name, node.name)
             self.add_node(alias_node)
             self._process_import_list(alias_node, ())
-            actual_node = self._find_module(node.name)
+            if isinstance(node, MissingModule):
+                # Cannot be located
+                actual_node = self._find_or_load_module(alias_node, node.name)
+            else:
+                actual_node = self._find_module(node.name)
+
             if actual_node is None:
                 # Excludes and implied actions are used regardless of
                 # the name that was used to import the module.
@@ -737,6 +742,9 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             self.add_edge(alias_node, actual_node, DEFAULT_DEPENDENCY)
             return alias_node
 
+        if isinstance(node, MissingModule):
+            return self._create_missing_module(importing_module, module_name)
+
         self.add_node(node)
 
         if isinstance(node, Package):
@@ -1119,7 +1127,9 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                                     importing_module, SIX_MOVES_TO[nm]
                                 )
                                 self.add_edge(
-                                    importing_module, dep_node, DEFAULT_DEPENDENCY
+                                    importing_module,
+                                    dep_node,
+                                    from_importinfo(import_info, False, None),
                                 )
                                 continue
 
-- 
2.43.0


From 69ca7d5b2e4cd825ad444f2a075a83179061f6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 37/50] fix: modules that are aliased in sys.modules by their
 package when there also is a file

---
 modulegraph2/_modulegraph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index a7a86c9..345e700 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -643,6 +643,10 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         try:
             try:
                 spec = find_spec(module_name)
+                if module_name in sys.modules:
+                    # Importing the containing package can add the module
+                    # to sys.modules, in particular as an alias.
+                    spec = find_spec(module_name)
 
             except ValueError as exc:
                 assert "__spec__" in exc.args[0]
-- 
2.43.0


From ef79c8d485a23b18b12fa9bcca8a0900fa9133ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 38/50] fix: explicit namespace packages that import pkgutil or
 pkg_resources with an import statement

---
 modulegraph2/_graphbuilder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 22ed736..8b30834 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -481,7 +481,11 @@ def node_for_spec(
         namespace_type = None
         if (
             source_code is not None
-            and "__import__" in node.globals_read
+            and (
+                "__import__" in node.globals_read
+                or "__path__" in node.globals_written
+                or "declare_namespace" in source_code
+            )
             and any(nm in source_code for nm in ("pkg_resources", "pkgutil"))
         ):
             # This might be an explicit namespace package using
-- 
2.43.0


From 5f7750246863c2a1ae4fffe8732d610bd32e32d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:36 +0000
Subject: [PATCH 39/50] fix: attributes that the import system sets on packages
 are not missing submodules

---
 modulegraph2/_modulegraph.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 345e700..228f037 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -44,6 +44,23 @@ MissingCallback = Callable[["ModuleGraph", BaseNode | None, str], BaseNode | Non
 
 DEFAULT_DEPENDENCY = DependencyInfo(False, True, False, None)
 
+#: Attributes of packages that are set by the import system
+MODULE_ATTRIBUTES = frozenset(
+    {
+        "__builtins__",
+        "__cached__",
+        "__class__",
+        "__dict__",
+        "__doc__",
+        "__file__",
+        "__loader__",
+        "__name__",
+        "__package__",
+        "__path__",
+        "__spec__",
+    }
+)
+
 
 class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
     """
@@ -1137,6 +1154,11 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                                 )
                                 continue
 
+                        if nm in MODULE_ATTRIBUTES:
+                            # Attribute that the import system adds to packages,
+                            # this is never a missing submodule.
+                            continue
+
                         if (
                             isinstance(imported_module, Package)
                             and nm in imported_module.globals_written
-- 
2.43.0


From e021c0a7875df7302e5121f14786880e461fd0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 40/50] fix: names imported in functions of compiled modules
 are not global names

---
 modulegraph2/_modulegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 228f037..2797bfb 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -1086,7 +1086,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 imported_module, (Package, NamespacePackage, Module)
             ):
                 init_module = getattr(importing_module, "init_module", importing_module)
-                if init_module.code is None:
+                if init_module.code is None and import_info.is_global:
                     # The names that are bound by importing_module were not
                     # collected from its byte code.
                     importing_module.globals_written.update(import_info.import_names)
-- 
2.43.0


From 8bdad805e3d688f43922cee336787315617f6c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 41/50] fix: use the name sysconfig itself uses for the module
 with build time variables

---
 modulegraph2/_implies.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/modulegraph2/_implies.py b/modulegraph2/_implies.py
index 4b3768a..73a1496 100644
--- a/modulegraph2/_implies.py
+++ b/modulegraph2/_implies.py
@@ -7,6 +7,7 @@ inspection of the stdlib sources for CPython.
 
 import os
 import sys
+import sysconfig
 from collections.abc import Sequence
 
 
@@ -85,11 +86,7 @@ STDLIB_IMPLIES: dict[str, ImpliesValueType] = {
     "xml.parsers.expat.errors": Alias("pyexpat"),
     # sysconfig users __import__ to load platform specific data
     "sysconfig": (
-        "_sysconfigdata_{abi}_{platform}_{multiarch}".format(
-            abi=getattr(sys, "abiflags", ""),
-            platform=sys.platform,
-            multiarch=getattr(sys.implementation, "_multiarch", ""),
-        ),
+        () if sys.platform == "win32" else (sysconfig._get_sysconfigdata_name(),)
     ),
     # turtledemo uses __import__ to load the actual demos
     "turtledemo": (
-- 
2.43.0


From b153faa0837cbd681f2faaa071aa80e0473dd7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 42/50] fix: more modules that C extensions of the standard
 library import

---
 modulegraph2/_implies.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/modulegraph2/_implies.py b/modulegraph2/_implies.py
index 73a1496..b1c47f0 100644
--- a/modulegraph2/_implies.py
+++ b/modulegraph2/_implies.py
@@ -57,15 +57,26 @@ STDLIB_IMPLIES: dict[str, ImpliesValueType] = {
         "traceback",
         "weakref",
     ),
+    "_codecs_cn": ("_multibytecodec",),
+    "_codecs_hk": ("_codecs_tw", "_multibytecodec"),
+    "_codecs_iso2022": ("_codecs_cn", "_codecs_jp", "_codecs_kr", "_multibytecodec"),
+    "_codecs_jp": ("_multibytecodec",),
+    "_codecs_kr": ("_multibytecodec",),
+    "_codecs_tw": ("_multibytecodec",),
     "_curses": ("curses",),
+    "_curses_panel": ("_curses",),
     "_datetime": ("time", "_strptime"),
+    "_decimal": ("collections.abc", "numbers"),
     "_elementtree": ("copy", "xml.etree.ElementPath", "pyexpat"),
     "_json": ("json.decoder",),
     "_operator": ("functools",),
     "_pickle": ("copyreg", "_compat_pickle", "codecs", "functools"),
     "_posixsubprocess": ("gc",),
+    "_sqlite3": ("sqlite3.dump",),
     "_ssl": ("_socket",),
     "_overlapped": ("_socket",),
+    "_zoneinfo": ("datetime", "weakref", "zoneinfo._common", "zoneinfo._tzpath"),
+    "array": ("collections.abc",),
     "parser": ("copyreg",),
     "posix": ("resource",),
     "signal": ("_signal",),
-- 
2.43.0


From d1bc6c7b8276130d51866907331400fca9cda58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 43/50] fix: submodules of packages that raise AttributeError
 for __path__ are not missing

---
 modulegraph2/_modulegraph.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 2797bfb..289baee 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -679,17 +679,6 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                     assert module_name not in sys.modules
                     sys.modules[module_name] = orig
 
-            except AttributeError as exc:  # pragma: no branch
-                if "has no attribute '__path__'" in exc.args[0]:  # pragma: no cover
-                    # In Python 3.6 finding the spec dotted name
-                    # that refers to an attribute of a module will
-                    # result in an attribute error instead of returning
-                    # None.
-                    spec = None  # pragma: no cover
-
-                else:  # pragma: nocover
-                    raise
-
             if spec is None:
                 node = self._create_missing_module(importing_module, module_name)
                 return node
-- 
2.43.0


From 90d681fa5061f903c1d974771ef9138c3f89904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 44/50] fix: hooks that add a hook were called more than once
 for a node

---
 modulegraph2/_callback_list.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_callback_list.py b/modulegraph2/_callback_list.py
index 2bd7cd5..0a55738 100644
--- a/modulegraph2/_callback_list.py
+++ b/modulegraph2/_callback_list.py
@@ -40,7 +40,8 @@ class CallbackList(Generic[T]):
         Args:
           function: Function to be added
         """
-        self._callbacks.insert(0, function)
+        # Callbacks can add callbacks, don't change the list that is iterated over
+        self._callbacks = [function, *self._callbacks]
 
     def clear(self):
         """
@@ -91,7 +92,8 @@ class FirstNotNone(Generic[T]):
         Args:
           function: Function to add to the list
         """
-        self._callbacks.insert(0, function)
+        # Callbacks can add callbacks, don't change the list that is iterated over
+        self._callbacks = [function, *self._callbacks]
 
     def clear(self):
         """
-- 
2.43.0


From 3a40dec3c53d7b6beb5af63c450a4bb803425ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 45/50] fix: six can be vendored in a package named moves

---
 modulegraph2/_graphbuilder.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 8b30834..1c930f4 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -373,10 +373,7 @@ def node_for_spec(
             return node, ()
 
         else:
-            # NOTE: Disabling E203 is necessary due to a conflict between flake8 and
-            # black. The formatting from black appears to be more correct.
-
-            relative_name = spec.name[spec.name.find(".moves.") + 7 :]  # noqa: E203
+            relative_name = spec.name.rpartition(".moves.")[2]
             try:
                 actual_name = SIX_MOVES_TO[relative_name]
             except KeyError:
-- 
2.43.0


From 386c7ffd6bd6fc55f09185a763fca43d2a36bc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 46/50] fix: mypyc modules depended on an arbitrary helper
 module of their distribution

---
 modulegraph2/_mypyc_support.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/modulegraph2/_mypyc_support.py b/modulegraph2/_mypyc_support.py
index 3575bc0..8558981 100644
--- a/modulegraph2/_mypyc_support.py
+++ b/modulegraph2/_mypyc_support.py
@@ -66,12 +66,13 @@ def mypyc_post_processing_hook(graph: "modulegraph2.ModuleGraph", node: BaseNode
     #
     # The name check can be made stricter if needed
     # by looking at the prefix as well.
-    for nm in node.distribution.import_names:
-        if nm.endswith("__mypyc"):
-            # Distribution is mypyc compiled
-            helper_module = nm
-            break
-    else:
+    #
+    # There can be more than one helper module, the name of the
+    # helper does not tell which modules use it.
+    helper_modules = sorted(
+        nm for nm in node.distribution.import_names if nm.endswith("__mypyc")
+    )
+    if not helper_modules:
         # Distribution is not mypyc compiled
         return
 
@@ -83,8 +84,9 @@ def mypyc_post_processing_hook(graph: "modulegraph2.ModuleGraph", node: BaseNode
     if not source_filename.is_file():
         return
 
-    # Add explicit dependency to the mypy helper extension module
-    graph.import_module(node, helper_module)
+    # Add explicit dependency to the mypy helper extension modules
+    for nm in helper_modules:
+        graph.import_module(node, nm)
 
     source_code = source_filename.read_bytes()
 
-- 
2.43.0


From 27659439bdbbfc9472fcd38edc3ac7b0a8ba93dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:19 +0000
Subject: [PATCH 47/50] fix: warnings raised as errors made modules invalid

Ignore warnings while compiling and importing modules, otherwise
'python -W error' results in InvalidModule nodes for modules that
are fine, and in missing dependencies.
---
 modulegraph2/_graphbuilder.py  | 26 +++++++++++--------
 modulegraph2/_modulegraph.py   | 46 ++++++++++++++++++----------------
 modulegraph2/_mypyc_support.py | 16 ++++++------
 modulegraph2/_utilities.py     | 19 ++++++++++++--
 4 files changed, 65 insertions(+), 42 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 1c930f4..425ab52 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -35,7 +35,7 @@ from ._nodes import (
     Script,
     SourceModule,
 )
-from ._utilities import get_source
+from ._utilities import get_source, ignored_warnings
 
 SIX_MOVES_GLOBALS = {"filter", "input", "map", "range", "xrange", "zip"}
 
@@ -183,7 +183,8 @@ def find_moved_spec(name: str) -> importlib.machinery.ModuleSpec | None:
     available or cannot be located because importing its package fails.
     """
     try:
-        return importlib.util.find_spec(name)
+        with ignored_warnings():
+            return importlib.util.find_spec(name)
     except (Exception, SystemExit):
         return None
 
@@ -279,13 +280,14 @@ def node_for_spec(
             assert filename is not None
 
             try:
-                ast_node = compile(
-                    source_code,
-                    filename,
-                    "exec",
-                    flags=ast.PyCF_ONLY_AST,
-                    dont_inherit=True,
-                )
+                with ignored_warnings():
+                    ast_node = compile(
+                        source_code,
+                        filename,
+                        "exec",
+                        flags=ast.PyCF_ONLY_AST,
+                        dont_inherit=True,
+                    )
             except Exception:
                 node_type = InvalidModule
 
@@ -293,7 +295,8 @@ def node_for_spec(
                 ast_imports = extract_ast_info(ast_node)
 
         try:
-            code = inspect_loader.get_code(spec.name)
+            with ignored_warnings():
+                code = inspect_loader.get_code(spec.name)
             assert code is not None
         except Exception:
             node_type = InvalidModule
@@ -489,7 +492,8 @@ def node_for_spec(
             # setuptools or pkgutil. Import the package to fetch
             # the correct submodule search path.
             try:
-                m = importlib.import_module(node.name)
+                with ignored_warnings():
+                    m = importlib.import_module(node.name)
             except (Exception, SystemExit):
                 pass
             else:
diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 289baee..7a9c22e 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -37,7 +37,7 @@ from ._nodes import (
     VirtualNode,
 )
 from ._swig_support import swig_missing_hook
-from ._utilities import FakePackage, find_spec, split_package
+from ._utilities import FakePackage, find_spec, ignored_warnings, split_package
 
 ProcessingCallback = Callable[["ModuleGraph", BaseNode], None]
 MissingCallback = Callable[["ModuleGraph", BaseNode | None, str], BaseNode | None]
@@ -251,13 +251,14 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
 
         .. versionadded:: 2.3
         """
-        ast_node = compile(
-            source_code,
-            "-source-code-",
-            "exec",
-            flags=ast.PyCF_ONLY_AST,
-            dont_inherit=True,
-        )
+        with ignored_warnings():
+            ast_node = compile(
+                source_code,
+                "-source-code-",
+                "exec",
+                flags=ast.PyCF_ONLY_AST,
+                dont_inherit=True,
+            )
         for info in extract_ast_info(ast_node):
             if info.import_level > 0:
                 # The source code is not part of a package
@@ -796,21 +797,22 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         except (UnicodeError, LookupError) as exc:
             raise SyntaxError(str(exc)) from exc
 
-        ast_node = compile(
-            source_code,
-            os.fspath(script_path),
-            "exec",
-            flags=ast.PyCF_ONLY_AST,
-            dont_inherit=True,
-        )
-        imports = extract_ast_info(ast_node)
+        with ignored_warnings():
+            ast_node = compile(
+                source_code,
+                os.fspath(script_path),
+                "exec",
+                flags=ast.PyCF_ONLY_AST,
+                dont_inherit=True,
+            )
+            code = compile(
+                source_code,
+                os.fspath(script_path),
+                "exec",
+                dont_inherit=True,
+            )
 
-        code = compile(
-            source_code,
-            os.fspath(script_path),
-            "exec",
-            dont_inherit=True,
-        )
+        imports = extract_ast_info(ast_node)
 
         node = Script(os.fspath(script_path), code)
         _, node.globals_written, node.globals_read = extract_bytecode_info(code)
diff --git a/modulegraph2/_mypyc_support.py b/modulegraph2/_mypyc_support.py
index 8558981..8d7456a 100644
--- a/modulegraph2/_mypyc_support.py
+++ b/modulegraph2/_mypyc_support.py
@@ -9,6 +9,7 @@ import modulegraph2
 
 from ._ast_tools import extract_ast_info
 from ._nodes import BaseNode, ExtensionModule, Package
+from ._utilities import ignored_warnings
 
 # Mypyc compiles Python code in a package to extension
 # modules, but generally leaves the Python sources next
@@ -91,13 +92,14 @@ def mypyc_post_processing_hook(graph: "modulegraph2.ModuleGraph", node: BaseNode
     source_code = source_filename.read_bytes()
 
     try:
-        ast_node = compile(
-            source_code,
-            str(source_filename),
-            "exec",
-            flags=ast.PyCF_ONLY_AST,
-            dont_inherit=True,
-        )
+        with ignored_warnings():
+            ast_node = compile(
+                source_code,
+                str(source_filename),
+                "exec",
+                flags=ast.PyCF_ONLY_AST,
+                dont_inherit=True,
+            )
     except Exception:
         # Invalid source, or source that is too complex for the compiler
         return
diff --git a/modulegraph2/_utilities.py b/modulegraph2/_utilities.py
index 5f3e6ca..04d05c6 100644
--- a/modulegraph2/_utilities.py
+++ b/modulegraph2/_utilities.py
@@ -7,6 +7,7 @@ import importlib
 import importlib.util
 import os
 import sys
+import warnings
 import zipimport
 from importlib.abc import InspectLoader
 from importlib.machinery import ModuleSpec
@@ -29,6 +30,19 @@ def saved_sys_path():
         importlib.invalidate_caches()
 
 
+@contextlib.contextmanager
+def ignored_warnings():
+    """
+    Contextmanager that ignores warnings, also when the user
+    has configured Python to raise them as exceptions.
+
+    Used while compiling and importing the modules that are added to the graph.
+    """
+    with warnings.catch_warnings():
+        warnings.simplefilter("ignore")
+        yield
+
+
 def split_package(name: str) -> tuple[str | None, str]:
     """
     Return (package, name) given a fully qualified module name
@@ -63,9 +77,10 @@ def find_spec(name: str) -> ModuleSpec | None:
     after looking for the module in :data:`sys.modules`.
     """
     try:
-        spec = importlib.util.find_spec(name)
-        if spec is None and name in sys.modules:
+        with ignored_warnings():
             spec = importlib.util.find_spec(name)
+            if spec is None and name in sys.modules:
+                spec = importlib.util.find_spec(name)
 
     except Exception:
         spec = find_zip_spec(name)
-- 
2.43.0


From ec6c485d629ce39df64602867f62270673f79d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:23 +0000
Subject: [PATCH 48/50] fix: entries of sys.path that are not strings made
 building the graph fail

The import system ignores these entries.
---
 modulegraph2/_distributions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index 9ca623e..5ebc27c 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -147,6 +147,10 @@ def all_distributions(
         path = sys.path
 
     for entry in path:
+        if not isinstance(entry, (str, os.PathLike)):
+            # Ignored by the import system
+            continue
+
         # Like the import system: filenames of modules are absolute and
         # an empty string is the current directory.
         entry = os.path.abspath(entry)
-- 
2.43.0


From 0797b411467303ad5e53f2b3b68db4e396b211c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:03 +0000
Subject: [PATCH 49/50] fix: search paths of explicit namespace packages that
 are not lists of strings

A package can set __path__ to anything, including values that
cannot be converted to paths. The import system ignores entries that
are not strings.
---
 modulegraph2/_graphbuilder.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 425ab52..ad40a85 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -494,10 +494,15 @@ def node_for_spec(
             try:
                 with ignored_warnings():
                     m = importlib.import_module(node.name)
+
+                # The import system ignores entries that are not strings
+                search_path = [
+                    loc for loc in getattr(m, "__path__", []) if isinstance(loc, str)
+                ]
             except (Exception, SystemExit):
                 pass
             else:
-                spec.submodule_search_locations = getattr(m, "__path__", [])
+                spec.submodule_search_locations = search_path
 
             if "pkg_resources" in source_code:
                 namespace_type = "pkg_resources"
-- 
2.43.0


From 2419cf1b8a571b487778f0678e16524c4d054dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:54 +0000
Subject: [PATCH 50/50] fix: hooks were not called for all nodes added by
 add_dependencies_for_source

The post processing hooks for a node that is created for a global of
a package were delayed until the next operation on the graph.
---
 modulegraph2/_modulegraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 7a9c22e..954f2a2 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -278,6 +278,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 if isinstance(node, MissingModule):
                     if name in module.globals_written:
                         # Name is a global in the package
+                        self._run_stack()
                         continue
                     self.add_edge(node, module, DEFAULT_DEPENDENCY)
 
-- 
2.43.0

