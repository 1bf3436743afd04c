"""
C11: excluded modules are cut out of the graph, nothing else changes.
"""
from itertools import combinations, product

from ..core import Result, expect, expect_eq
from ..util import write_tree, new_graph, canon, reachable, depinfo, diff_canon
from .. import projects as P

PROPERTY = "C11"
TITLE = "excludes cut exactly the excluded modules out of the graph"
ASSUMPTIONS = ["programs are built from import statements and assignments"]

EXTRA = [["posixpath"], ["os"], ["os.path"], ["os", "posixpath"]]
IMPL = ["none", "seq", "alias", "virtual", "alias-to", "virtual-to", "seq-to"]


def BOUND(tier):
    return (
        "project universe of C04 (root statement x one statement in "
        + ("one other file" if tier == "quick" else "up to two other files")
        + ") x every exclude set of size 1 and 2 over the names that take part; excludes given as list/set/generator, in one or "
        "several calls, before/after implies of every kind for and to the name, before/after the module was added, "
        "excludes of modules that are reachable under another name (sys.modules alias); state = canonical graph"
    )


def cases(tier):
    for names in EXTRA:
        for imps in (True, False):
            for stmt in ("import os.path", "from os import path", "import os.path as p", "import posixpath", "import os"):
                yield {"std": stmt, "excl": names, "implies": imps}
    for stmt in ("import t", "from t import x", "import t.sub", "from t import sub", "import other"):
        for name in ("t", "t.sub", "u"):
            for kind in IMPL:
                for order in ("excl-first", "excl-last", "excl-both"):
                    yield {"impl": kind, "order": order, "stmt": stmt, "name": name}
    for form in ("list", "tuple", "set", "gen", "calls", "dup", "dict", "str", "late", "late-sub"):
        for names in (["p"], ["p.m"], ["p.m", "a"], ["a", "p", "zz"]):
            yield {"form": form, "excl": names}
    seen = 0
    for c in P.enum_projects("quick") if tier == "quick" else P.enum_projects("thorough"):
        if len(c) > (2 if tier == "quick" else 3) or any(len(st) > 1 for st in c.values()):
            continue
        yield {"proj": c, "n": 1}
        if len(c) == 1 or (len(c) == 2 and P.interesting(c["r"][0])):
            yield {"proj": c, "n": 2}
    return seen


def relevant(case):
    return "proj" not in case or P.relevant(case["proj"])


def run_case(case, env):
    res = Result()
    if "proj" in case:
        mods = P.project(case["proj"])
        ref0 = P.Reference(P.Universe(mods), "r")
        names = sorted((ref0.may | ref0.may_missing))
        res.traces = 0
        with env.case() as d:
            write_tree(d, P.tree(mods))
            for excl in combinations(names, case["n"]):
                one(res, d, mods, list(excl))
                env.purge()
        res.outcome = ["proj", len(names)]
    else:
        {"std": std, "impl": impl, "form": form}[next(k for k in ("std", "impl", "form") if k in case)](res, case, env)
    return res


def one(res, d, mods, excl):
    uni = P.Universe(mods, excluded=excl)
    ref = P.Reference(uni, "r")
    mg = new_graph()
    mg.add_excludes(excl)
    mg.add_module("r")
    reach = reachable(mg)
    nodes = {n.identifier: n for n in mg.nodes()}
    invalid = {n for n, _, _ in ref.invalid}
    where = f"with excludes {excl}: "
    for name in sorted(reach):
        kind = type(nodes[name]).__name__
        if uni.excluded(name):
            want = "ExcludedModule"
            if kind == "MissingModule" and any(x == "zz" and x not in excl or x.endswith(".zz") for x in P.parents(name)):
                # the package of the excluded name does not exist
                want = kind
            expect(name in ref.may_missing, where + f"{name!r} is in the graph but nothing refers to it")
            expect(nodes[name].filename is None, where + f"{name!r} has a filename")
        elif name in ref.may:
            want = {"p": "Package", "p.q": "Package", "ns": "NamespacePackage"}.get(name, "SourceModule")
        elif name in ref.may_missing:
            want = "MissingModule"
        else:
            expect(name in invalid, where + f"{name!r} is in the graph but nothing refers to it")
            want = "InvalidRelativeImport"
        expect_eq(kind, want, where + f"class of {name!r}")
    for name in sorted(ref.must | ref.must_missing):
        expect(name in reach, where + f"{name!r} is not in the graph")
    for (s, t), attrs in ref.must_edges.items():
        have = {tuple(depinfo(x)) for x in mg.edge_data(s, t)} if t in {y.identifier for _, y in mg.outgoing(s)} else set()
        expect(attrs <= have, where + f"edge {s!r} -> {t!r}: {have} lacks {attrs - have}")
    for s, t, data in mg.edges():
        s, t = s.identifier, t.identifier
        if s not in reach or t in invalid:
            continue
        for x in data:
            expect(tuple(depinfo(x)) in ref.may_edges.get((s, t), ()), where + f"edge {s!r} -> {t!r} {depinfo(x)} is not in the program")
        if uni.excluded(s):
            expect(t == s.rpartition(".")[0], where + f"excluded module {s!r} has dependency {t!r}")
    for n in nodes.values():
        if uni.excluded(n.identifier):
            expect(type(n).__name__ == "ExcludedModule" or n.identifier in reach, where + f"{n.identifier!r} is a {type(n).__name__}")
    res.step(len(reach))
    res.traces += 1
    res.state([excl, canon(mg, d)])


def std(res, case, env):
    """modules that are reachable under a second name through sys.modules"""
    with env.case() as d:
        write_tree(d, {"r.py": case["std"] + "\n"})
        mg = new_graph(use_stdlib_implies=case["implies"])
        keep = {"os", "posixpath", "genericpath", "stat"}
        import sys

        mg.add_excludes(set(sys.stdlib_module_names) - keep)
        mg.add_excludes(case["excl"])
        mg.add_module("r")
        for n in mg.nodes():
            if n.identifier in case["excl"] or n.identifier.split(".")[0] in case["excl"]:
                expect_eq(type(n).__name__, "ExcludedModule", f"class of excluded {n.identifier!r}")
                for _, t in mg.outgoing(n):
                    expect_eq(t.identifier, n.identifier.rpartition(".")[0], f"dependency of excluded {n.identifier!r}")
        expect(any(n.identifier in ("os", "posixpath") for n in mg.nodes()), "target not in the graph")
        res.step()
        res.state(canon(mg, d))
    res.outcome = ["std"]


def implied(kind, name):
    import modulegraph2 as m

    return {
        "seq": {name: ["w1"]}, "alias": {name: m.Alias("w1")}, "virtual": {name: m.Virtual("w1")},
        "alias-to": {"w2": m.Alias(name)}, "virtual-to": {"w2": m.Virtual(name)}, "seq-to": {"w2": [name]},
    }[kind]


def impl(res, case, env):
    name, kind = case["name"], case["impl"]
    with env.case() as d:
        write_tree(d, {
            "r.py": case["stmt"] + "\nimport w2\n", "t/__init__.py": "import dep\nx = 1\n", "t/sub.py": "import dep2\n", "u.py": "import dep3\n",
            "other.py": "import t.sub\nimport u\n", "w1.py": "import w3\n", "w2.py": "", "w3.py": "", "dep.py": "", "dep2.py": "", "dep3.py": "",
        })
        mg = new_graph()
        if case["order"] != "excl-last":
            mg.add_excludes([name])
        if kind != "none":
            mg.add_implies(implied(kind, name))
        if case["order"] != "excl-first":
            mg.add_excludes([name])
        mg.add_module("r")
        reach = reachable(mg)
        for n in mg.nodes():
            ident = n.identifier
            if ident == name or ident.startswith(name + "."):
                expect_eq(type(n).__name__, "ExcludedModule", f"class of excluded {ident!r}")
                for _, t in mg.outgoing(n):
                    expect_eq(t.identifier, ident.rpartition(".")[0], f"dependency of excluded {ident!r}")
            else:
                expect(type(n).__name__ != "ExcludedModule", f"{ident!r} is not excluded")
        hidden = {"t": {"dep", "dep2"}, "t.sub": {"dep2"}, "u": {"dep3"}}[name]
        expect(not (hidden & reach), f"dependencies of excluded {name!r} are in the graph: {hidden & reach}")
        if kind in ("seq", "alias", "virtual"):
            expect("w1" not in reach, f"implied actions for excluded {name!r} have effect")
        if kind.endswith("-to"):
            expect(name in reach, f"target {name!r} of the implied action is not in the graph")
            expect(any(t.identifier == name for _, t in mg.outgoing("w2")), f"no edge from 'w2' to {name!r}")
        res.step(len(reach))
        res.state(canon(mg, d))
    res.outcome = ["impl", kind]


def form(res, case, env):
    excl = case["excl"]
    f = case["form"]
    files = {
        "r.py": "import a\nimport p.m\nfrom p import b\nimport zz\n", "a.py": "import da\n", "da.py": "", "p/__init__.py": "import dp\n", "dp.py": "",
        "p/m.py": "import dm\n", "dm.py": "", "p/b.py": "", "k.py": "import p.m\nimport a\nimport zz\n",
    }
    with env.case() as d:
        write_tree(d, files)

        def build(adder):
            env.purge()
            mg = new_graph()
            adder(mg)
            mg.add_module("r")
            return canon(mg, d)

        base = build(lambda mg: mg.add_excludes(list(excl)))
        if f == "str":
            mg = new_graph()
            try:
                mg.add_excludes("p")
            except TypeError:
                pass
            else:
                expect(False, "a string is accepted as list of excludes")
            mg.add_module("r")
            plain = build(lambda mg: None)
            expect(canon(mg, d) == plain, "failed add_excludes call has effect")
        elif f.startswith("late"):
            # excludes added when (part of) the modules are already in the graph do not change those
            mg = new_graph()
            mg.add_module("r" if f == "late" else "p.m")
            before = canon(mg, d)
            mg.add_excludes(excl)
            expect(canon(mg, d) == before, "add_excludes changes the graph")
            mg.add_module("r")
            mg.add_module("k")
            after = canon(mg, d)
            for k, v in before["nodes"].items():
                expect_eq(after["nodes"].get(k), v, f"node {k!r}")
            for k, v in before["edges"].items():
                expect(set(map(tuple, v)) <= set(map(tuple, after["edges"].get(k, ()))), f"edge {k!r} disappeared")
            for nm in excl:
                if nm not in before["nodes"]:
                    expect_eq(after["nodes"][nm]["class"], "ExcludedModule", f"class of {nm!r}")
        else:
            adders = {
                "list": lambda mg: mg.add_excludes(list(excl)), "tuple": lambda mg: mg.add_excludes(tuple(excl)),
                "set": lambda mg: mg.add_excludes(set(excl)), "gen": lambda mg: mg.add_excludes(x for x in excl),
                "calls": lambda mg: [mg.add_excludes([x]) for x in reversed(excl)], "dict": lambda mg: mg.add_excludes(dict.fromkeys(excl)),
                "dup": lambda mg: [mg.add_excludes(excl + excl), mg.add_excludes(excl)],
            }
            got = build(adders[f])
            expect(got == base, f"excludes given as {f} result in a different graph: {diff_canon(got, base)}")
            for nm in excl:
                expect_eq(got["nodes"][nm]["class"], "ExcludedModule", f"class of {nm!r}")
        res.step(2)
        res.state([f, base])
    res.outcome = ["form", f]
