"""
C06: relative imports resolve as in PEP 328, for every importer.
"""
import importlib.util
import os
import pathlib
from itertools import product

from ..core import Result, expect, expect_eq
from ..util import write_tree, new_graph, canon, edge_infos, cls, resolve_relative, reachable, compile_tree

PROPERTY = "C06"
TITLE = "relative imports resolve as specified, or are invalid"
ASSUMPTIONS = ["package trees of depth at most 3 (quick) / 4 (thorough), built from one regular and one namespace package name"]

SUFFIX = ["", "m", "a", "n.m", "a.v", "zz", "zz.y"]
NAMES = [["m"], ["a"], ["n"], ["v"], ["zz"], ["i"], ["m", "zz", "n"], ["*"]]
SCRIPTS = ["$/i.py", "i.py", "./i.py", "../@/i.py", "i.v1.py", "a/i.py", "./n/prog", "../@/a/../i.py"]


def BOUND(tier):
    return (
        "importer at every place in a tree of regular ('a') and namespace ('n') packages of depth "
        f"{3 if tier == 'quick' else 4} (submodule, package __init__, toplevel module, script given by "
        f"{len(SCRIPTS)} path shapes) x levels 0..{5 if tier == 'quick' else 6} x {len(SUFFIX)} module parts x {len(NAMES)} name "
        "lists x source / byte code only; expected direct edges and node classes computed with PEP 328 rules, cross-checked "
        "with importlib.util.resolve_name; state = canonical graph"
    )


def dirs(depth):
    out = [()]
    for d in range(1, depth + 1):
        out += list(product("an", repeat=d))
    return out


def cases(tier):
    depth = 3 if tier == "quick" else 4
    maxlevel = 5 if tier == "quick" else 6
    for level in range(0, maxlevel + 1):
        for suffix in SUFFIX:
            if level == 0 and not suffix:
                continue
            for names in NAMES:
                if level <= 2:
                    for sc in SCRIPTS:
                        yield {"depth": 2, "script": sc, "level": level, "suffix": suffix, "names": names, "pyc": False}
                for d in dirs(depth):
                    if level > len(d) + 2:
                        continue
                    for init in (False, True):
                        if init and (not d or d[-1] == "n"):
                            continue
                        for pyc in (False, True):
                            if pyc and len(d) == depth:
                                continue
                            yield {"depth": depth, "dir": list(d), "init": init, "level": level, "suffix": suffix,
                                   "names": names, "pyc": pyc}


def run_case(case, env):
    res = Result()
    depth = case["depth"]
    files = {}
    pkgs, nss, mods = set(), set(), set()
    for d in dirs(depth):
        rel = "".join(x + "/" for x in d)
        name = ".".join(d)
        files[rel + "m.py"] = "v = 1\n"
        mods.add(".".join(d + ("m",)))
        if d and d[-1] == "a":
            files[rel + "__init__.py"] = "v = 1\n"
            pkgs.add(name)
        elif d:
            nss.add(name)
    target = "." * case["level"] + case["suffix"]
    stmt = f"from {target} import {', '.join(case['names'])}\n"
    with env.case(chdir=True) as root:
        if "script" in case:
            write_tree(root, files)
            path = case["script"].replace("$", root).replace("@", os.path.basename(root))
            with open(path, "w") as fp:
                fp.write(stmt)
            rel = os.path.relpath(path, root)
            if rel in ("i.py", "a/i.py"):
                # also importable as module
                mods.add(rel[:-3].replace("/", "."))
            mg = new_graph()
            me = mg.add_script(path).identifier
            expect_eq(me, path, "identifier of the script")
            package, parent = "", None
            importer_is_pkg = False
        else:
            d = tuple(case["dir"])
            rel = "".join(x + "/" for x in d)
            if case["init"]:
                me = ".".join(d)
                files[rel + "__init__.py"] = "v = 1\n" + stmt
                package, parent = me, ".".join(d[:-1]) or None
            else:
                me = ".".join(d + ("i",))
                files[rel + "i.py"] = stmt
                mods.add(me)
                package = parent = ".".join(d) or None
            importer_is_pkg = case["init"]
            write_tree(root, files)
            if case["pyc"]:
                compile_tree(root)
            mg = new_graph()
            mg.add_module(me)
            package = package or ""
        base = resolve_relative(package, case["level"], case["suffix"])
        # the reference agrees with CPython
        if case["level"]:
            try:
                py = importlib.util.resolve_name(target, package or None)
                if not case["suffix"]:
                    py = py.rstrip(".")
            except ImportError:
                py = None
            assert py == base, (py, base)
        want = {}

        def add(t, *attr):
            want.setdefault(t, set()).add(attr)

        optional = set()
        if parent:
            add(parent, False, True, False, None)
        if base is None:
            add("." * case["level"] + case["suffix"], False, True, False, None)
            expect_eq(cls(mg, target), "InvalidRelativeImport", f"class of {target!r}")
        else:
            def kind(n):
                parts = n.split(".")
                for i in range(1, len(parts)):
                    if ".".join(parts[:i]) not in pkgs | nss:
                        return "MissingModule"
                if n in pkgs:
                    return "Package"
                if n in nss:
                    return "NamespacePackage"
                if n in mods:
                    return "BytecodeModule" if case["pyc"] else "SourceModule"
                return "MissingModule"

            add(base, False, True, False, None)
            expect_eq(cls(mg, base), kind(base), f"class of {base!r}")
            if kind(base) in ("Package", "NamespacePackage"):
                for n in case["names"]:
                    if n == "*":
                        continue
                    full = f"{base}.{n}"
                    if kind(full) == "MissingModule" and (
                            (n == "v" and base in pkgs) or (base == me and importer_is_pkg)):
                        # attribute of the package, (base == me: bound by the statement itself)
                        continue
                    add(full, False, True, True, None)
                    expect_eq(cls(mg, full), kind(full), f"class of {full!r}")
            for n in mg.iter_graph():
                expect(type(n).__name__ != "InvalidRelativeImport", f"{n.identifier!r} is a valid relative import")
        got = {t.identifier: edge_infos(mg, me, t.identifier) for _, t in mg.outgoing(me)}
        for nm in "an":
            if base == me and nm in case["names"] and (False, True, True, None) not in want.get(nm, ()):
                # The statement binds the name in the package, and the package has an edge to the toplevel
                # package with that name (parent, or itself): the graph may claim that the name refers to that.
                got.get(nm, set()).discard((False, True, True, None))
        if got != want:
            if "" in got:
                raise AssertionError(got)
            expect_eq(sorted(got.items(), key=repr), sorted(want.items(), key=repr), f"edges of {me!r} for {stmt.strip()!r}")
        expect(all(not str(x).startswith("/") or "script" in case for x in reachable(mg)), "file name as module")
        res.step(len(got))
        res.state(canon(mg, root))
        res.outcome = ["invalid" if base is None else cls(mg, base), len(got)]
    return res
