"""
C14: missing-module hooks: called exactly for unresolved names, newest first, first answer wins.
"""
import sys
from itertools import product

from ..core import Result, expect, expect_eq
from ..util import write_tree, new_graph, canon, reachable, depinfo, diff_canon
from .. import projects as P

PROPERTY = "C14"
TITLE = "missing-module hooks resolve exactly the unresolved names"
ASSUMPTIONS = ["hooks return None or a node that they added to the graph with the requested name"]

# behaviours of a hook: which names it resolves, and how
BEHAV = ["none", "all-missing", "all-virtual", "toplevel", "sub", "import", "adds"]


def BOUND(tier):
    return (
        "project universe of C04 (root statement, pairs of root statements, root statement x one statement in "
        + ("one other file" if tier == "quick" else "up to two other files")
        + f") with at least one unresolvable name x all pairs of {len(BEHAV)} hook behaviours (resolve nothing/everything with "
        f"different node types/only toplevel names/only submodules/import another module) + built-in hooks on/off; {len(NAMES)} special names x {len(HOW)} "
        f"origins x {len(FORMS)} import forms x answers x constructor options; state = canonical graph + calls"
    )


#: names that cannot be found on this platform although they look special
NAMES = [
    "winreg", "_winapi", "msvcrt", "nt", "_scproxy", "winreg.x", "json.zz", "email.mime.zz", "encodings.zz.y", "importlib.zz", "sys.zz", "sys.zz.y", "os.path.zz", "os.zz",
    "collections.abc.zz", "_io.zz", "test.zz", "lib2to3.zz", "_zz", "zz__", "__zz__", "six", "six.moves", "six.moves.zz", "pkg_resources", "setuptools.extern.zz", "_distutils_hack.zz",
    "xml.zz", "xml.etree.zz.y", "builtins.zz", "zz.winreg", "p.winreg", "p.sys", "p.json", "p.p.winreg", "ns.winreg", "m.winreg", "m.json.zz", "caf\u00e9", "class_", "_c", "p.__init__.zz",
    "ext.zz", "ext.json", "bc.zz", "inv.zz", "zz._c", "p._c", "typing.io.zz", "m.__init__",
]
FORMS = {
    "import": "import {n}\n", "as": "import {n} as x\n", "from": "from {n} import x\n", "star": "from {n} import *\n",
    "name": "from {h} import {t}\n", "function": "def f():\n    import {n}\n", "try": "try:\n    import {n}\nexcept ImportError:\n    pass\n",
    "type": "if TYPE_CHECKING:\n    from {n} import x\n",
}
HOW = ["module", "package", "script", "import_module", "add_module", "implies", "source"]


def name_cases():
    for n in NAMES:
        for how in HOW:
            for form in FORMS if how in ("module", "package", "script", "source") else ["import"]:
                if form == "name" and "." not in n:
                    continue
                for answer in ("none", "virtual"):
                    for opts in (0, 1, 2):
                        yield {"name": n, "how": how, "form": form, "answer": answer, "opts": opts}


def run_name(case, env):
    import modulegraph2 as m

    from .c07_resolution import pyc, SOABI

    res = Result()
    name, how = case["name"], case["how"]
    head, _, tail = name.rpartition(".")
    text = FORMS[case["form"]].format(n=name, h=head, t=tail)
    with env.case() as d:
        write_tree(d, {"r.py": text, "q/__init__.py": text, "m.py": "", "p/__init__.py": "", "p/p/__init__.py": "", "ns/k.py": "", "inv.py": "if if", "bc.pyc": pyc(""), f"ext{SOABI}": b""})
        mg = new_graph(use_builtin_hooks=not case["opts"] & 1, use_stdlib_implies=not case["opts"] & 2)
        keep = name.partition(".")[0]
        mg.add_excludes(x for x in sys.stdlib_module_names if x != keep)
        calls = []

        def hook(graph, importing, nm):
            calls.append(nm)
            expect(graph.find_node(nm) is None, f"hook called for {nm!r} that is in the graph")
            if case["answer"] == "virtual":
                node = m.VirtualNode(nm, "m")
                graph.add_node(node)
                return node

        mg.add_missing_hook(hook)
        if how == "implies":
            mg.add_implies({"r": (name,)})
            write_tree(d, {"r.py": ""})
            mg.add_module("r")
        elif how == "import_module":
            write_tree(d, {"r.py": ""})
            r = mg.add_module("r")
            with mg.hook_context():
                mg.import_module(r, name)
        elif how == "add_module":
            mg.add_module(name)
        elif how == "source":
            mg.add_dependencies_for_source(text)
        elif how == "script":
            mg.add_script(d + "/r.py")
        else:
            mg.add_module("r" if how == "module" else "q")
        expect_eq(len(calls), len(set(calls)), f"hooks are called more than once for a name: {calls}")
        for n in mg.nodes():
            if type(n).__name__ == "MissingModule":
                expect(n.identifier in calls, f"{n.identifier!r} is missing, but the hook was not called")
        bad = [nm for nm in calls if type(mg.find_node(nm)).__name__ != ("VirtualNode" if case["answer"] == "virtual" else "MissingModule")]
        expect(not bad, f"nodes for {bad}")
        target = mg.find_node(name)
        # names in modules, other than packages, are not imported by from-imports
        if target is None:
            expect(case["form"] == "name" and type(mg.find_node(head)).__name__ not in ("Package", "NamespacePackage", "NoneType"), f"{name!r} is not in the graph")
        else:
            expect(name in reachable(mg) or case["form"] == "name", f"{name!r} is not reachable")
            exists = type(target).__name__ not in ("MissingModule", "VirtualNode", "ExcludedModule", "AliasNode")
            expect((name in calls) != exists, f"hook {'called' if exists else 'not called'} for {name!r}, that is a {type(target).__name__}")
        res.step(len(calls))
        res.state([case["name"], how, canon(mg, d), calls])
    res.outcome = ["name", len(calls), how]
    return res


def cases(tier):
    yield from name_cases()
    for c in P.enum_projects(tier):
        if len(c) > (2 if tier == "quick" else 3) or (tier == "quick" and len(c) > 1 and any(len(st) > 1 for st in c.values())):
            continue
        yield {"proj": c}


def relevant(case):
    if "name" in case:
        return True
    if not P.relevant(case["proj"]):
        return False
    ref = P.Reference(P.Universe(P.project(case["proj"])), "r")
    return True


def run_case(case, env):
    if "name" in case:
        return run_name(case, env)
    res = Result()
    res.traces = 0
    mods = P.project(case["proj"])
    uni = P.Universe(mods)
    ref = P.Reference(uni, "r")
    with env.case() as d:
        write_tree(d, P.tree(mods))
        plain = new_graph()
        plain.add_module("r")
        env.purge()
        small = len(case["proj"]) == 1 and len(case["proj"]["r"]) == 1
        combos = product(BEHAV, repeat=2) if ref.may_missing and (small or len(case["proj"]) > 1) else [("none", "none"), ("all-virtual", "none")]
        for b1, b2 in combos:
            one(res, d, case, ref, plain, b1, b2)
            env.purge()
    res.outcome = ["missing" if ref.may_missing else "complete", len(ref.may_missing)]
    return res


def one(res, d, case, ref, plain, b1, b2):
    import modulegraph2 as m

    mg = new_graph(use_builtin_hooks=(b1 != b2))
    calls = []
    provided = {}
    later = []
    added = None
    where = f"[{b1}+{b2}] "

    def hook(label, behav):
        def f(graph, importing, name):
            nonlocal added
            if label == "third":
                later.append(name)
                return None
            expect(graph is mg, where + "hook called with a different graph")
            expect(isinstance(name, str), where + f"hook called with {name!r}")
            expect(mg.find_node(name) is None, where + f"hook called for {name!r} that is already in the graph")
            expect(importing is None or mg.find_node(importing.identifier) is importing, where + "importing module is not in the graph")
            calls.append((label, name, None if importing is None else importing.identifier))
            node = None
            if behav == "all-missing":
                node = m.MissingModule(name)
            elif behav == "all-virtual":
                node = m.VirtualNode(name, "b")
            elif behav == "toplevel" and "." not in name:
                node = m.VirtualNode(name, "b")
            elif behav == "sub" and "." in name:
                node = m.ExcludedModule(name)
            elif behav == "import" and name == "zz":
                node = m.VirtualNode(name, "ns.k")
            if node is not None:
                node.extension_attributes["by"] = label
                mg.add_node(node)
                if behav == "import":
                    mg.import_module(node, "ns.k")
                provided[name] = (label, node)
            if behav == "adds" and not added:
                added = name
                mg.add_missing_hook(hook("third", ""))
            return node
        return f

    mg.add_missing_hook(hook("first", b1))
    mg.add_missing_hook(hook("second", b2))
    mg.add_module("r")
    reach = reachable(mg)
    # order: 'second' is always called before 'first', and 'first' only when 'second' gave nothing
    i = 0
    names = []
    while i < len(calls):
        label, name, imp = calls[i]
        expect_eq(label, "second", where + f"first hook called for {name!r}")
        names.append(name)
        if name in provided and provided[name][0] == "second":
            i += 1
            continue
        expect(i + 1 < len(calls) and calls[i + 1] == ("first", name, imp), where + f"older hook is not called for {name!r}: {calls}")
        i += 2
    if added:
        expect_eq(later, names[names.index(added) + 1:], where + f"names that the hook that was added for {added!r} is called for")
    expect(len(set(names)) == len(names), where + f"hook called more than once for a name: {names}")
    for name in names:
        expect(not all(e for _, e in ref.uni.chain(name)), where + f"hook called for existing module {name!r}")
        got = mg.find_node(name)
        if name in provided:
            expect(got is provided[name][1], where + f"node from the hook for {name!r} is not used")
        else:
            expect_eq(type(got).__name__, "MissingModule", where + f"class of {name!r}")
    # importing module: imports the name (or a submodule or a name in it)
    for label, name, imp in calls:
        if imp is not None:
            rel = {t.identifier for _, t in mg.outgoing(imp)}
            expect(any(t == name or t.startswith(name + ".") or name.startswith(t + ".") for t in rel),
                   where + f"hook called for {name!r} with importing module {imp!r} that does not import it")
    for name in names:
        expect(any(imp is not None for lb, n, imp in calls if n == name), where + f"importing module is not passed for {name!r}")
    # every missing name in the graph went through the hooks
    for n in mg.nodes():
        if type(n).__name__ == "MissingModule":
            expect(n.identifier in names, where + f"{n.identifier!r} is missing, but the hooks were not asked")
    if b1 == b2 == "none":
        a, b = canon(mg, d), canon(plain, d)
        expect(a == b, where + f"hooks that return None change the graph: {diff_canon(a, b)}")
    if "import" in (b1, b2) and any(nm == "zz" and v[1].providing_module == "ns.k" for nm, v in provided.items() if hasattr(v[1], "providing_module")):
        expect("ns.k" in reach or "zz" not in reach, where + "module imported by the hook is not in the graph")
        expect(mg.find_node("ns.k") is not None and {t.identifier for _, t in mg.outgoing("ns.k")} >= {"ns"}, where + "imported module is incomplete")
    for name, (label, node) in provided.items():
        if name in ref.must_missing:
            expect(name in reach, where + f"node from the hook for {name!r} is not connected")
    # names that are resolvable are unaffected
    for name in ref.must:
        expect(name in reach and type(mg.find_node(name)) is type(plain.find_node(name)), where + f"{name!r} changed")
    for (s, t), attrs in ref.must_edges.items():
        if s in ref.must and (t in ref.must or "." not in t):
            have = {tuple(depinfo(x)) for x in mg.edge_data(s, t)} if any(y.identifier == t for _, y in mg.outgoing(s)) else set()
            expect(attrs <= have, where + f"edge {s!r} -> {t!r} is missing {attrs - have}")
    res.step(len(calls) + 1)
    res.traces += 1
    res.state([canon(mg, d), calls])
