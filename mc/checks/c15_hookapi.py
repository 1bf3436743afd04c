"""
C15: import_module, import_package and hook_context.
"""
import os
import pkgutil
from itertools import combinations, product

from ..core import Result, expect, expect_eq
from ..util import write_tree, new_graph, canon, reachable, depinfo, edge_infos, cls, diff_canon, compile_tree, zip_tree
from .. import projects as P
from .c07_resolution import SOABI, pyc

PROPERTY = "C15"
TITLE = "import_module and import_package add complete dependencies"
ASSUMPTIONS = ["namespace packages inside the package are added but need not be searched"]

ENTRY = {
    "m": {"m.py": "import dep\n"},
    "pyc": {"c.pyc": pyc("import dep2\n")},
    "ext": {f"x{SOABI}": b""},
    "abi3": {"y.abi3.so": b""},
    "otherabi": {"o.cpython-33m-x86_64-linux-gnu.so": b""},
    "sub": {"sub/__init__.py": "", "sub/k.py": "import dep\n"},
    "subsub": {"s1/__init__.py": "", "s1/s2/__init__.py": "", "s1/s2/k.py": "from ... import v\nfrom . import zz\n"},
    "subpyc": {"sp/__init__.pyc": pyc(""), "sp/k.pyc": pyc("import dep2\n")},
    "subext": {f"se/__init__{SOABI}": b"", "se/k.py": ""},
    "ns": {"nsd/k.py": ""},
    "data": {"data/x.txt": "", "readme.txt": ""},
    "badname": {"bad-name.py": "import dep3\n", "1x.py": "import dep3\n", "a-b/__init__.py": "", ".hid.py": ""},
    "both": {"both.py": "import dep3\n", "both/__init__.py": "import dep\n", "both/k.py": ""},
    "cache": {"__pycache__/m.cpython-312.pyc": pyc(""), "__pycache__/old.py": "import dep3\n"},
    "main": {"__main__.py": "from . import v\n"},
    "invalid": {"inv.py": "def 1\n"},
    "subbad": {"sb/__init__.py": "1/0\n", "sb/k.py": "import dep2\n"},
    "cycle": {"cy.py": "import p\nfrom p import cz\n", "cz.py": "from . import cy\nimport r\n"},
    "unicode": {"\u00e9t\u00e9.py": "import dep2\n"},
}
INIT = {
    "plain": "v = 1\n", "raise": "v = 1\nraise RuntimeError(1)\n", "import": "v = 1\nimport dep\nfrom p import m, sub\n", "missing": "v=1\nimport zz9\n",
    "exit": "v = 1\nraise SystemExit(3)\n",
    # explicit namespace packages: search path with more entries than the directory of the package
    "path-none": "v = 1\n__path__ = [__path__[0] + '/nosuch'] + list(__path__) # pkgutil\n",
    "path-file": "v = 1\n__path__ = [__path__[0] + '/__init__.py'] + list(__path__) # pkgutil\n",
    "path-after": "v = 1\n__path__ = list(__path__) + [__path__[0] + '2'] # pkgutil\n",
    "path-before": "v = 1\n__path__ = [__path__[0] + '2'] + list(__path__) # pkgutil\n",
}
#: modules in the additional entry
SECOND = {"p2/__init__.py": "", "p2/m.py": "import dep5\n", "p2/w.py": "import dep6\n", "p2/sub/__init__.py": "import dep7\n", "p2/sub/k2.py": "", "p2/data.txt": "", "p2/w2/__init__.py": "", "p2/w2/k.py": ""}
LIB = {"dep5.py": "", "dep6.py": "", "dep7.py": "", "dep.py": "", "dep2.py": "import dep4\n", "dep3.py": "", "dep4.py": "", "r.py": "v = 1\n"}


def BOUND(tier):
    return (
        f"import_package: packages with all sets of at most {2 if tier == 'quick' else 3} of {len(ENTRY)} kinds of content (source, byte code, "
        "extension, other ABI, nested packages, namespace, data, bad names, module+package, cycles, unimportable) x "
        f"{len(INIT)} __init__ kinds x importer (module, script, missing node, the package) x package already in the graph or not x "
        "excludes x exception in the context; oracle pkgutil.iter_modules; import_module: every name x one statement in every file, "
        "compared with the graph for the equivalent import statement; state = canonical graph"
    )


def cases(tier):
    for k in range(0, 3 if tier == "quick" else 4):
        for entries in combinations(ENTRY, k):
            for init in INIT:
                if init != "plain" and k > (1 if tier == "quick" else 2):
                    continue
                for imp in ("module", "script", "missing", "self"):
                    if imp in ("script", "missing") and k > 1 and tier == "quick":
                        continue
                    for pre in (False, True):
                        for excl in ([], ["p.m"], ["p.sub"], ["p"]):
                            if excl and (k > 1 or init != "plain") and not (set(entries) & {"m", "sub"}):
                                continue
                            yield {"pkg": list(entries), "init": init, "imp": imp, "pre": pre, "excl": excl, "exc": imp == "module" and pre}
    for name in ("a", "zz", "zz.y", "p.zz", "a.zz", "ns", "sys", "os.path"):
        for pre in (False, True):
            yield {"other": name, "pre": pre}
    for zipped in (False, True):
        yield {"zip": zipped}
    names = ["a", "b", "p", "p.m", "p.q", "p.q.n", "ns.k", "ns", "zz", "zz.y", "p.zz", "r"]
    for name in names:
        yield {"name": name, "proj": {}}
        for f in P.FILES:
            for t in P.ALPHA[f]:
                yield {"name": name, "proj": {f: [t]}}


def relevant(case):
    if "name" not in case or not case["proj"]:
        return True
    f = next(iter(case["proj"]))
    mods = P.project(case["proj"])
    mods["r"] = mods["r"] + [["import", case["name"], None]]
    return f in P.used(P.Universe(mods))


PLAIN = (False, True, False, None)


def all_modules(path, prefix):
    """modules in a regular package according to the stdlib"""
    for info in pkgutil.iter_modules(path):
        if not info.name.isidentifier():
            continue
        yield prefix + info.name, info.ispkg
        if info.ispkg:
            yield from all_modules([os.path.join(info.module_finder.path, info.name)], prefix + info.name + ".")


def run_case(case, env):
    res = Result()
    if "name" in case:
        mods = P.project(case["proj"])
        with env.case() as d:
            write_tree(d, P.tree(mods))
            mg = new_graph()
            r = mg.add_module("r")
            with mg.hook_context():
                n = mg.import_module(r, case["name"])
                expect(n is mg.find_node(case["name"]), "result of import_module is not the node for that name")
                expect(PLAIN in edge_infos(mg, "r", case["name"]), "no edge")
            got = canon(mg, d)
            env.purge()
            mods["r"] = mods["r"] + [["import", case["name"], None]]
            write_tree(d, {"sub/x": ""})
            with open(f"{d}/r.py", "w") as fp:
                fp.write(P.tree(mods)["r.py"])
            os.utime(f"{d}/r.py", (1, 1))
            import sys

            sys.path_importer_cache.pop(d, None)
            mg = new_graph()
            mg.add_module("r")
            want = canon(mg, d)
            expect(got == want, f"graph differs from one with an import statement: {diff_canon(got, want)}")
            res.step()
            res.state(got)
        res.outcome = "import_module"
        return res
    if "other" in case:
        with env.case() as d:
            write_tree(d, {"r.py": "", "a.py": "import b\n", "b.py": "", "ns/k.py": "", "p/__init__.py": ""})
            mg = new_graph()
            import sys

            mg.add_excludes(x for x in sys.stdlib_module_names if x not in ("sys",))
            r = mg.add_module("r")
            if case["pre"]:
                mg.add_module(case["other"])
            with mg.hook_context():
                n = mg.import_package(r, case["other"])
            expect(n is mg.find_node(case["other"]), "result of import_package")
            expect_eq(edge_infos(mg, "r", case["other"]), {PLAIN}, "edge")
            mg2 = new_graph()
            mg2.add_excludes(x for x in sys.stdlib_module_names if x not in ("sys",))
            r = mg2.add_module("r")
            if case["pre"]:
                mg2.add_module(case["other"])
            with mg2.hook_context():
                mg2.import_module(r, case["other"])
            a, b = canon(mg, d), canon(mg2, d)
            if case["other"] != "ns":
                expect(a == b, f"import_package of a module differs from import_module: {diff_canon(a, b)}")
            res.step()
            res.state(a)
        res.outcome = "other"
        return res
    if "zip" in case:
        with env.case(subdirs=["e.zip"]) as d:
            write_tree(d + "/e", {"p/__init__.py": "import dep\n", "p/m.py": "", **LIB})
            zip_tree(d + "/e", d + "/e.zip", dirs=case["zip"])
            mg = new_graph()
            r = mg.add_module("r")
            with mg.hook_context():
                mg.import_package(r, "p")
            expect_eq(cls(mg, "p"), "Package", "class of 'p'")
            expect_eq(edge_infos(mg, "r", "p"), {PLAIN}, "edge")
            expect(cls(mg, "dep") == "SourceModule", "imports of package are not processed")
            res.step()
            res.state(canon(mg, d))
        res.outcome = "zip"
        return res
    with env.case() as d:
        files = dict(LIB)
        files["p/__init__.py"] = INIT[case["init"]]
        for e in case["pkg"]:
            for rel, content in ENTRY[e].items():
                files["p/" + rel] = content
        path = [d + "/p"]
        if case["init"] in ("path-after", "path-before"):
            files.update(SECOND)
            path.insert(case["init"] == "path-after", d + "/p2")
        write_tree(d, files)
        mg = new_graph()
        mg.add_excludes(case["excl"] + ["pkgutil"] * case["init"].startswith("path-"))
        hooked = []
        mg.add_post_processing_hook(lambda g, n: hooked.append(n.identifier))
        if case["pre"]:
            mg.add_module("p")
        if case["imp"] == "module":
            me = mg.add_module("r")
        elif case["imp"] == "script":
            me = mg.add_script(d + "/r.py")
        elif case["imp"] == "missing":
            me = mg.add_module("nosuch")
        else:
            me = mg.add_module("p")
        ident = me.identifier
        try:
            with mg.hook_context():
                node = mg.import_package(me, "p")
                if case["exc"]:
                    raise KeyError("x")
        except KeyError:
            expect(case["exc"], "unexpected exception")
        else:
            expect(not case["exc"], "exception in the context is lost")
        expect(node is mg.find_node("p"), "result of import_package")
        want = {"p": True}
        if "p" not in case["excl"]:
            want.update(all_modules(path, "p."))
        expect(PLAIN in (edge_infos(mg, ident, "p") or ()), f"no edge from {ident!r} to 'p'")
        excluded = {n for n in want if any(n == x or n.startswith(x + ".") for x in case["excl"])}
        for x in case["excl"]:
            expect(cls(mg, x) in ("ExcludedModule", None), f"{x!r} is a {cls(mg, x)}")
        reach = reachable(mg)
        for name, ispkg in sorted(want.items()):
            par = name.rpartition(".")[0]
            if par in excluded:
                continue
            expect(name in reach, f"{name!r} is not in the graph after import_package")
            if name in excluded:
                continue
            k = cls(mg, name)
            expect(k in (("Package",) if ispkg else ("SourceModule", "BytecodeModule", "ExtensionModule", "InvalidModule")), f"{name!r} is a {k}")
            if par:
                expect(PLAIN in (edge_infos(mg, par, name) or ()), f"no edge from {par!r} to {name!r}")
        # nothing else is found in the package
        ns = {"p.nsd", "p.data"}
        for n in mg.nodes():
            nm = n.identifier
            if nm.startswith("p.") and nm not in want and type(n).__name__ not in ("MissingModule", "ExcludedModule"):
                expect(nm in ns or (nm.startswith("p.nsd.") and type(n).__name__ == "SourceModule"), f"{nm!r} ({type(n).__name__}) is not a module in the package")
        for nm in ("p.zz", "p.s1.s2.zz"):
            if cls(mg, nm):
                expect_eq(cls(mg, nm), "MissingModule", nm)
        # dependencies of the modules are processed
        deps = {"m": "dep", "sub": "dep", "pyc": "dep4", "subpyc": "dep4", "both": "dep", "subbad": "dep4", "cycle": "r", "unicode": "dep4"}
        for e, dep in deps.items():
            if e in ("m", "sub") and case["init"] == "path-before":
                continue
            if e in case["pkg"] and not case["excl"]:
                expect(dep in reach, f"dependency {dep!r} of package content {e!r} is not in the graph")
        if path[1:] and not case["excl"]:
            # the modules in the second entry, unless they are in the first one as well
            first = path[0].endswith("2")
            for dep, found in (("dep5", first or "m" not in case["pkg"]), ("dep6", True), ("dep7", first or "sub" not in case["pkg"])):
                expect_eq(dep in reach, found, f"{dep!r}, that is imported by a module in the second entry of the search path, is in the graph")
        expect(not ("dep3" in reach), "'dep3' is imported by files that are no module")
        expect_eq(sorted(hooked), sorted(n.identifier for n in mg.nodes()), "nodes that are post processed")
        before = canon(mg, d)
        with mg.hook_context():
            mg.import_package(me, "p")
        after = canon(mg, d)
        expect(before == after, f"second import_package changes the graph: {diff_canon(after, before)}")
        res.step(len(want))
        res.state(before)
    res.outcome = ["package", len(want)]
    return res
