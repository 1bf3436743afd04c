"""
C25: extension modules made by SWIG and mypyc have the dependencies of their sources.
"""
import importlib
import importlib.machinery

from itertools import combinations, product

from .. import blocks, projects as P
from ..core import Result, expect, expect_eq
from ..util import write_tree, new_graph, canon, cls, diff_canon, edge_infos, reachable, render

PROPERTY = "C25"
TITLE = "modules compiled by mypyc or wrapped by SWIG are analysed like their sources"
ASSUMPTIONS = [
    "extension modules are files with the right name: they are never loaded by modulegraph2",
    "a mypyc module depends on all helper modules in its distribution, only the module that is wrapped by SWIG imports the extension",
]

SO = importlib.machinery.EXTENSION_SUFFIXES
HELPER = "c0ffee__mypyc"
#: what is compiled, for mypyc
WHICH = {
    "all": list(P.FILES),
    "packages": ["p", "p.q"],
    "modules": ["p.m", "p.b", "p.q.n", "ns.k", "a", "b"],
    "root": ["r"],
}

# ------------------------------------------------------------------ SWIG

#: place of the module: (module name, file, package that has the extension, importing root)
PLACE = {
    "top": ("foo", "foo.py", None, "r"),
    "mod": ("p.foo", "p/foo.py", "p", "r"),
    "pkg": ("foo", "foo/__init__.py", "foo", "r"),
    "subpkg": ("p.foo", "p/foo/__init__.py", "p.foo", "r"),
    "submod": ("p.q.foo", "p/q/foo.py", "p.q", "r"),
    "nsmod": ("ns.foo", "ns/foo.py", "ns", "r"),
    "nspkg": ("ns.foo", "ns/foo/__init__.py", "ns.foo", "r"),
    "nssub": ("p.n.foo", "p/n/foo.py", "p.n", "r"),
}
HELP = {
    "def": "def swig_import_helper():\n    pass\n",
    "none": "",
    "var": "swig_import_helper = 1\n",
    "from": "from p2 import x as swig_import_helper\n",
    "other": "def swig_import_helper2():\n    swig_import_helper = 1\n",
    "nested": "class C:\n    def swig_import_helper(self): pass\n",
    "iffed": "if x:\n    def swig_import_helper():\n        pass\n",
}
EXT = {
    "so": ["{pkg}/_foo" + SO[-1]],
    "abi": ["{pkg}/_foo" + SO[0]],
    "abi3": ["{pkg}/_foo.abi3.so"],
    "py": ["{pkg}/_foo.py"],
    "badpy": ["{pkg}/_foo.py!if if"],
    "dir": ["{pkg}/_foo/__init__.py"],
    "nsdir": ["{pkg}/_foo/x.py"],
    "extdir": ["{pkg}/_foo/__init__" + SO[0]],
    "none": [],
    "foreign": ["{pkg}/_foo.cpython-38-darwin.so"],
    "wrong": ["elsewhere/_foo" + SO[0], "_bar" + SO[0]],
    "both": ["{pkg}/_foo" + SO[0], "_foo" + SO[0]],
    "toppy": ["{pkg}/_foo" + SO[0], "_foo.py"],
}
IMPORT = {
    "import": ("import _foo\n", "_foo"),
    "as": ("import _foo as z\n", "_foo"),
    "from": ("from _foo import v, w\n", "_foo"),
    "star": ("from _foo import *\n", "_foo"),
    "function": ("def g():\n    try:\n        import _foo\n    except ImportError:\n        raise\n", "_foo"),
    "sub": ("import _foo.sub\n", "_foo"),
    "bar": ("import _bar\n", "_bar"),
    "dotted": ("import x._foo\n", "x._foo"),
    "twice": ("import _foo\nimport _foo as z\nfrom _foo import y\n", "_foo"),
}
#: what happens when a package is really imported
INIT = {
    "ok": "",
    "value": "raise ValueError\n",
    "import": "import _nothere\n",
    "exit": "raise SystemExit(1)\n",
    "syntax": "if if\n",
    "gone": "import sys; del sys.modules[__name__]\n",
    "nopath": "del __path__\n",
    "path": "__path__ = []\n",
}


def BOUND(tier):
    return (
        f"SWIG: {len(PLACE)} places of the module x {len(HELP)} forms of the helper function x {len(EXT)} contents of its package x "
        f"{len(IMPORT)} imports (pairwise: two of the four dimensions at a time"
        + (", and all combinations" if tier == "thorough" else "")
        + f") x {len(INIT)} behaviours of the package when it is really imported x built-in hooks on/off; "
        f"mypyc: project universe of C04 (root statement, pairs of root statements, root statement x "
        + ("one statement in one other file" if tier == "quick" else "up to two statements in other files")
        + f") x {len(WHICH)} selections of compiled modules, compared with the graph of the sources; missing, invalid, unusual sources, {len(NAMED)} encodings and layouts of the source; "
        "every statement shape in every kind of block, function and class (three statements: two levels); distributions that are not compiled by mypyc, or whose helper is absent, in a package; chains of compiled modules with 50..1500 links"
    )


def swig_cases(tier):
    base = ("mod", "def", "abi", "import")
    dims = (PLACE, HELP, EXT, IMPORT)
    seen = set()

    def emit(c, init):
        key = (c, init)
        if key in seen:
            return
        seen.add(key)
        yield {"swig": list(c), "init": init}

    for i in INIT:
        yield from emit(base, i)
    for x, y in combinations(range(4), 2):
        for vx, vy in product(dims[x], dims[y]):
            c = list(base)
            c[x], c[y] = vx, vy
            for i in INIT:
                yield from emit(tuple(c), i)
    for place, ext in product(PLACE, EXT):
        for imp in ("from", "bar", "sub"):
            for hlp in ("def", "none"):
                yield from emit((place, hlp, ext, imp), "ok")
    if tier == "thorough":
        for c in product(*dims):
            for i in INIT:
                yield from emit(c, i)


SRC = {
    "none": None,
    "empty": b"",
    "syntax": b"import a\nif if\n",
    "null": b"import a\n\0",
    "encoding": b"# coding: nope\nimport a\n",
    "badbytes": b"import a\n'\xff'\n",
    "latin": b"# coding: latin-1\nimport a\n'\xff'\n",
    "bom": b"\xef\xbb\xbfimport a\n",
    "return": b"import a\nreturn\n",
    "deep": b"import a\n" + b"x = " + b"-" * 20000 + b"1\n",
    "parens": b"import a\n" + b"x = " + b"(" * 500 + b")" * 500 + b"\n",
    "attr": b"import a\nx" + b".x" * 6000 + b"\n",
    "dir": "dir",
    "crlf": b"import a\r\n",
    "ok": b"import a\n",
}
SRC_IMPORTS = {"latin", "bom", "crlf", "ok"}
#: sources that import modules with other names
NAMED = {
    "n-utf8": ("d\u00e9", "import d\u00e9\n".encode()),
    "n-bom": ("d\u00e9", b"\xef\xbb\xbf" + "from d\u00e9 import v\n".encode()),
    "n-latin": ("d\u00e9", "# coding: latin-1\nimport d\u00e9\n".encode("latin-1")),
    "n-latin2": ("d\u00e9", "#!/usr/bin/python\n# vim: set fileencoding=iso-8859-15 :\nimport d\u00e9\n".encode("iso-8859-15")),
    "n-cp1251": ("\u0434", "# -*- coding: cp1251 -*-\nimport \u0434\n".encode("cp1251")),
    "n-koi8": ("\u0434", "# coding=koi8-r\r\nimport \u0434\r\n".encode("koi8-r")),
    "n-third": ("d\u00e9", "\n\n# coding: cp1251\nimport d\u00e9\n".encode()),
    "n-bomutf8": ("d\u00e9", b"\xef\xbb\xbf" + "# coding: utf-8\nimport d\u00e9\n".encode()),
    "n-cr": ("d\u00e9", "# coding: latin-1\rimport d\u00e9\r".encode("latin-1")),
    "n-nfkc": ("dfi", "import d\ufb01\n".encode()),
    "n-formfeed": ("d1", b"\x0cimport d1\n"),
    "n-continued": ("d1", b"import \\\n d1\n"),
    "n-indent": ("d1", b"if 1:\n\timport d1\n"),
    "n-noeol": ("d1", b"import d1"),
}
SRC.update((k, v[1]) for k, v in NAMED.items())


#: statements for the deeper nestings
#: names that are imported in dead code or classes are not bound by the package (and it binds v itself)
KINDS = {
    "p.m": [k[0] for k in blocks.KINDS + blocks.DEAD + blocks.EXTRA],
    "p.q": [k[0] for k in blocks.KINDS + blocks.EXTRA if k[0] not in blocks.CLASSES and k[0] != "lambdadef"],
}
NESTED = {
    "p.m": [P.I("a"), P.F("b", "v", level=1), P.F("", "zz", level=1)],
    "p.q": [P.I("p.b", "x"), P.F("", "m", level=2)],
}


def cases(tier):
    yield from swig_cases(tier)
    for s in SRC:
        for mod in ("p.m", "p", "b"):
            for dist in ("mypyc", "plain", "none", "nohelper", "inpackage", "unlisted", "sourceonly", "similar", "two", "three"):
                yield {"source": s, "mod": mod, "dist": dist}
    for n in (2, 50, 350, 1500):
        for kind in ("import", "from", "package", "mixed"):
            yield {"chain": n, "kind": kind}
    for mod in ("p.m", "p.q"):
        for path in blocks.contexts(1 if tier == "quick" else 2, KINDS[mod]):
            for st in P.ALPHA[mod]:
                if st[0] != "assign" and not (st[0] == "star" and blocks.in_scope(path)):
                    yield {"nested": mod, "path": path, "stmt": st}
        if tier == "quick":
            for path in blocks.contexts(2):
                if len(path) == 2:
                    for st in (NESTED[mod]):
                        yield {"nested": mod, "path": path, "stmt": st}
    for c in P.enum_projects(tier):
        if tier == "quick" and (len(c) > 2 or (len(c) > 1 and any(len(st) > 1 for st in c.values()))):
            continue
        yield {"proj": c}


def relevant(case):
    return "proj" not in case or P.relevant(case["proj"])


def record(name, files):
    rec = "".join(f"{f},sha256=x,1\n" for f in files)
    return {
        f"{name}-1.dist-info/METADATA": f"Metadata-Version: 2.1\nName: {name}\nVersion: 1\n",
        f"{name}-1.dist-info/RECORD": rec,
        f"{name}-1.dist-info/WHEEL": "",
    }


def run_case(case, env):
    res = Result()
    if "swig" in case:
        swig(case, env, res)
    elif "source" in case:
        source(case, env, res)
    elif "chain" in case:
        chain(case, env, res)
    elif "nested" in case:
        nested(case, env, res)
    else:
        mypyc(case, env, res)
    return res


def swig(case, env, res):
    place, hlp, ext, imp = case["swig"]
    name, file, pkg, root = PLACE[place]
    text, target = IMPORT[imp]
    with env.case() as d:
        tree = {"r.py": f"import {name}\nimport last\n", "last.py": "import p.m\n", "p/m.py": "", "p2.py": "x = 1\n",
                "p/q/__init__.py": "", "p/__init__.py": ""}
        # what is executed when the packages of the module are really imported
        chain = [x for x in ("p", "p.q") if (pkg or "") == x or (pkg or "").startswith(x + ".")]
        for x in chain:
            tree[x.replace(".", "/") + "/__init__.py"] = INIT[case["init"]]
        own = hlp_text(hlp) + text
        if file.endswith("__init__.py"):
            own += INIT[case["init"]]
        invalid = case["init"] == "syntax" and file.endswith("__init__.py")
        # the module cannot really be imported from such a package
        if case["init"] in ("nopath", "path", "gone"):
            invalid = None
        tree[file] = own
        where = (pkg or "").replace(".", "/") or "."
        there = {}
        for e in EXT[ext]:
            e, _, content = e.partition("!")
            if pkg is None and e.startswith("{pkg}"):
                e = e.replace("{pkg}", "q")
            e = e.format(pkg=where)
            tree[e] = content + "\n"
            there[e] = True
        write_tree(d, tree)
        graphs = {}
        calls = []
        for hooks in (True, False):
            mg = new_graph(use_builtin_hooks=hooks)
            if hooks:
                mg.add_post_processing_hook(lambda g, n: calls.append(n.identifier))
            mg.add_module(root)
            graphs[hooks] = mg
            env.purge()
        on, off = graphs[True], graphs[False]
        if invalid is None:
            invalid = cls(off, name) not in ("SourceModule", "Package")
            expect(not invalid or cls(off, name) == "MissingModule" and chain, f"class of the wrapper {cls(off, name)}")
        wrapped = (
            not invalid and pkg is not None and target == "_foo" and hlp in ("def", "var", "from", "iffed")
            and ext in ("so", "abi", "abi3", "both", "toppy") and not (ext in ("both", "toppy"))
        )
        regular = not invalid and ext in ("both", "toppy") and target == "_foo"
        got, base = canon(on, d), canon(off, d)
        if wrapped:
            node = on.find_node("_foo")
            expect_eq(type(node).__name__, "ExtensionModule", "class of the extension that is used by a SWIG wrapper")
            expect_eq(str(node.filename), d + "/" + [e for e in there if "_foo" in e][0], "file of the extension")
            expect_eq(node.name, "_foo", "name of the extension")
            expect_eq(cls(off, "_foo"), "MissingModule", "class without the hook")
            expect(edge_infos(on, name, "_foo") == edge_infos(off, name, "_foo") and edge_infos(on, name if imp != "sub" else "_foo.sub", "_foo"), "edge to the extension")
            got["nodes"].pop("_foo")
            base["nodes"].pop("_foo")
        elif regular:
            expect_eq(cls(on, "_foo"), "ExtensionModule" if ext == "both" else "SourceModule", "class of a module that can be found")
        elif not invalid and target == "_foo":
            expect_eq(cls(on, "_foo"), "MissingModule", "class of a missing module")
        delta = diff_canon(got, base)
        expect(not delta, f"the hook for SWIG influences other parts of the graph: {delta}")
        expect({"last", "p.m"} <= reachable(on) and cls(on, "p.m") == ("SourceModule" if invalid is False and case["init"] not in ("nopath", "path", "gone") else cls(off, "p.m")), "modules after the wrapper are not complete")
        expect_eq(sorted(calls), sorted(n.identifier for n in on.nodes()), "nodes passed to post processing hooks")
        res.step(len(got["nodes"]) * 2)
        res.state(canon(on, d))
    res.outcome = ["swig", wrapped, regular]


def hlp_text(hlp):
    return HELP[hlp]


def compiled(tree, names):
    """(tree with the modules in *names* compiled, list of its files)"""
    out = dict(tree)
    for m in names:
        f = P.FILES[m]
        if f in tree:
            out[f[:-3] + SO[0]] = b""
    return out


def mypyc(case, env, res):
    res.traces = 0
    mods = P.project(case["proj"])
    tree = P.tree(mods)
    out = None
    uni = P.Universe(mods)
    # modules that are used under a name that some module binds
    loose = {}
    for m, stmts in mods.items():
        for st in stmts:
            base = uni.base(m, st)
            if st[0] == "from" and base is not None:
                for n, _ in st[3]:
                    loose.setdefault(m, set()).update(P.Reference(uni, "r").bound_modules(base, n))
    for which, names in WHICH.items():
        if which == "root" and len(case["proj"]) > 1:
            continue
        if which != "all" and not any(case["proj"].get(m) or m == "r" for m in names):
            continue
        with env.case() as d:
            new = compiled(tree, names)
            extra = dict(record("D", sorted(new) + [HELPER + SO[0]]), **{HELPER + SO[0]: b""})
            write_tree(d, dict(tree, **extra))
            a = new_graph()
            a.add_module("r")
            want = canon(a, d)
            live = {x for x in reachable(a)}
            env.purge()
            write_tree(d, {k: v for k, v in new.items() if k not in tree})
            importlib.invalidate_caches()
            b = new_graph()
            b.add_module("r")
            got = canon(b, d)
            live_b = {x for x in reachable(b)}
            helper = got["nodes"].pop(HELPER, None)
            users = {m for m in names if m in live_b}
            expect((helper is not None) == bool(users), f"[{which}] helper module in the graph: {helper}")
            if helper:
                expect_eq(helper["class"], "ExtensionModule", "class of the helper")
            edges = {k: got["edges"].pop(k) for k in list(got["edges"]) if k.endswith(" -> " + HELPER)}
            expect_eq({k.split(" ")[0] for k in edges}, users, f"[{which}] modules that depend on the helper")
            for k, v in edges.items():
                expect_eq(v, [[False, True, False, None]], "edge to the helper")
            for m in names:
                node = b.find_node(m)
                if m in live_b:
                    init = getattr(node, "init_module", node)
                    expect_eq(type(init).__name__, "ExtensionModule", f"class of {m}")
                    if m in P.PACKAGES:
                        expect_eq(type(node).__name__, "Package", f"class of {m}")
                for g in (got, want):
                    if m in g["nodes"]:
                        g["nodes"][m] = None
            # nothing is known about the names that an extension module binds: they may be missing submodules
            unknown = {f"{m}.{n}" for m in P.PACKAGES for n in uni.names(m)[1] if not uni.exists(f"{m}.{n}")}
            for x in (live_b & unknown) - live:
                expect_eq(cls(b, x), "MissingModule", f"class of {x}")
            live_b -= unknown - live
            expect_eq(live_b - {HELPER}, live, f"[{which}] reachable nodes")
            for g in (got, want):
                for k in list(g["edges"]):
                    src, dst = k.split(" -> ")
                    if dst in unknown:
                        del g["edges"][k]
                    elif dst in loose.get(src, ()):
                        g["edges"][k] = [x for x in g["edges"][k] if not x[2]]
                        if not g["edges"][k]:
                            del g["edges"][k]
            got["nodes"] = {k: v for k, v in got["nodes"].items() if k in live}
            want["nodes"] = {k: v for k, v in want["nodes"].items() if k in live}
            for g in (got, want):
                g["edges"] = {k: v for k, v in g["edges"].items() if k.split(" -> ")[0] in live}
            delta = diff_canon(got, want)
            expect(not delta, f"[{which}] graph of compiled modules differs from the graph of the sources: {delta}")
            res.step(len(got["edges"]))
            res.traces += 1
            res.state([which, canon(b, d)])
            out = [len(users), len(live)]
    res.outcome = ["mypyc"] + (out or [])


def nested(case, env, res):
    """One statement in nested blocks, functions and classes"""
    mod = case["nested"]
    text = blocks.nest(case["path"], render([case["stmt"]]))
    with env.case() as d:
        tree = {P.PATHS[m]: "v = 1\n" for m in P.FILES}
        tree["r.py"] = f"import {mod}\n"
        tree[P.PATHS[mod]] = text
        write_tree(d, tree)
        a = new_graph()
        a.add_module("r")
        want = canon(a, d)
        env.purge()
        extra = {P.PATHS[mod][:-3] + SO[0]: "", HELPER + SO[0]: ""}
        write_tree(d, dict(extra, **record("D", [P.PATHS[mod], *extra])))
        importlib.invalidate_caches()
        b = new_graph()
        b.add_module("r")
        got = canon(b, d)
        expect_eq(type(getattr(b.find_node(mod), "init_module", b.find_node(mod))).__name__, "ExtensionModule", "class of the compiled module")
        helper = got["nodes"].pop(HELPER, None)
        expect(helper is not None, "helper module is not in the graph")
        expect_eq(got["edges"].pop(f"{mod} -> {HELPER}", None), [[False, True, False, None]], "edge to the helper")
        got["nodes"][mod] = want["nodes"][mod] = None
        delta = diff_canon(got, want)
        expect(not delta, f"graph of the compiled module differs from the graph of the source: {delta}")
        res.step(len(got["edges"]))
        res.state([mod, got])
    res.outcome = ["nested"]


def source(case, env, res):
    mod, dist = case["mod"], case["dist"]
    file = {"p.m": "p/m", "p": "p/__init__", "b": "b"}[mod]
    with env.case() as d:
        tree = {"a.py": "", "p/__init__.py": "", "p/m.py": "", "b.py": "", "r.py": f"import {mod}\nimport last\n", "last.py": ""}
        tree.pop(file + ".py")
        tree[file + SO[0]] = ""
        if case["source"] in NAMED:
            tree[NAMED[case["source"]][0] + ".py"] = "v = 1\n"
        content = SRC[case["source"]]
        if content == "dir":
            tree[file + ".py/x"] = ""
        elif content is not None:
            tree[file + ".py"] = content
        helpers = {
            "inpackage": ["p/h/x__mypyc"], "similar": ["x__mypycompat", "__mypyc_x", "mypyc"], "two": [HELPER, "decaf__mypyc"],
            "three": ["p/zz__mypyc", HELPER, "a__mypyc"],
        }.get(dist, [HELPER])
        for helper in helpers:
            if dist not in ("nohelper", "plain"):
                tree[helper + SO[0]] = ""
        files = sorted(tree)
        if dist == "nohelper":
            files.append(helper + SO[0])
        if dist == "unlisted":
            files.remove(file + SO[0])
        if dist == "sourceonly":
            files.remove(helper + SO[0])
            files.append(helper + ".txt")
        if dist != "none":
            tree.update(record("D", files))
        write_tree(d, tree)
        mg = new_graph()
        mg.add_module("r")
        active = dist in ("mypyc", "nohelper", "inpackage", "two", "three")
        # an import of a sibling can shadow nothing here
        has_source = content is not None and content != "dir"
        for helper in helpers:
            name = helper.replace("/", ".")
            if active and has_source:
                expect(edge_infos(mg, mod, name) == {(False, True, False, None)}, f"edge to the helper {name}: {edge_infos(mg, mod, name)}")
                expect_eq(cls(mg, name), "MissingModule" if dist == "nohelper" else "ExtensionModule", f"class of the helper {name}")
            else:
                expect(cls(mg, name) is None, f"helper {name} is in the graph")
        if case["source"] in NAMED:
            name = NAMED[case["source"]][0]
            if active:
                infos = {(case["source"] == "n-indent", True, False, None)}
                expect(edge_infos(mg, mod, name) == infos, f"import of {name!r} in the source")
                expect_eq(cls(mg, name), "SourceModule", f"class of {name!r}")
            else:
                expect(cls(mg, name) is None, "a module is in the graph that nothing imports")
        if active and case["source"] in SRC_IMPORTS:
            expect(edge_infos(mg, mod, "a") == {(False, True, False, None)}, "import in the source")
        elif case["source"] in SRC_IMPORTS or not active or not has_source:
            expect(cls(mg, "a") is None, "a module is in the graph that nothing imports")
        expect_eq(cls(mg, "last"), "SourceModule", "class of a module that is imported later")
        expect_eq([n.identifier for n in mg.roots()], ["r"], "roots")
        res.step(len(list(mg.nodes())))
        res.state(canon(mg, d))
    res.outcome = ["source", active, case["source"] in SRC_IMPORTS]


def chain(case, env, res):
    n, kind = case["chain"], case["kind"]
    with env.case() as d:
        tree = {HELPER + SO[0]: "", "c%d.py" % n: "import zz\n"}
        for i in range(n):
            if kind == "package" or kind == "mixed" and i % 3 == 0:
                base = f"c{i}/__init__"
            else:
                base = f"c{i}"
            tree[base + ".py"] = f"import c{i + 1}\nv = 1\n" if kind in ("import", "package") or i % 2 else f"from c{i + 1} import v\nv = 1\n"
            tree[base + SO[0]] = ""
        tree.update(record("D", sorted(tree)))
        write_tree(d, tree)
        mg = new_graph()
        seen = []
        mg.add_post_processing_hook(lambda g, nd: seen.append(nd.identifier))
        mg.add_module("c0")
        ids = {x.identifier for x in mg.iter_graph()}
        expect_eq({x for x in ids if not x.endswith(".v")}, {f"c{i}" for i in range(n + 1)} | {HELPER, "zz"}, "nodes of the chain")
        expect_eq(sorted(seen), sorted(x.identifier for x in mg.nodes()), "calls of post processing hooks")
        res.step(len(ids))
        res.state(["chain", n, kind])
    res.outcome = ["chain"]
