"""
C24: add_dependencies_for_source has the same effect as a script with that source.
"""
import os

from itertools import product

from .. import projects as P
from ..core import Result, expect, expect_eq
from ..util import write_tree, new_graph, canon, diff_canon, reachable, render, depinfo

PROPERTY = "C24"
TITLE = "code fragments add what a script with that source would import"
ASSUMPTIONS = ["fragments of one or two import statements, in every kind of block that executes conditionally, later or in another scope"]

REL = [P.F("", "m", level=1), P.F("m", "v", level=1), P.F("", "a", level=2), P.S("", level=1), P.F("zz", "m", level=3)]
ROOT = P.ABS + REL

CONTEXT = {
    "if": "if x:\n{}\n",
    "else": "if x:\n    pass\nelse:\n{}\n",
    "try": "try:\n{}\nexcept ImportError:\n    pass\n",
    "except": "try:\n    pass\nexcept ImportError:\n{}\n",
    "finally": "try:\n    pass\nfinally:\n{}\n",
    "with": "with x:\n{}\n",
    "for": "for x in y:\n{}\n",
    "while": "while x:\n{}\n",
    "def": "def f():\n{}\n",
    "async": "async def f():\n{}\n",
    "class": "class c:\n{}\n",
    "match": "match x:\n  case 1:\n{}\n",
    "nested": "class c:\n  def f(self):\n   try:\n{}\n   except ImportError:\n     pass\n",
    "doc": "'''doc'''\nfrom __future__ import annotations\nif 1:\n{}\n",
    "coding": "# coding: latin-1\nif 1:\n{}\n        '\xe9'\n",
    "crlf": None,
    "semicolon": None,
    "noeol": None,
}

INVALID = {
    "syntax": "import a\nimport = 1\n",
    "null": "import a\n\0\n",
    "indent": "import a\n  import b\n",
    "bracket": "import p.m\nx = (1\n",
    "star": "import a\ndef f(:\n",
    "surrogate": "import a\nx = '\udc80'\n",
    "toodeep": "import a\nx = " + "(" * 300 + ")" * 300 + "\n",
}

CONFIG = ["none", "exclude-a", "exclude-p", "exclude-p.m", "exclude-ns", "imply-a", "imply-alias", "imply-alias2", "missing-hook"]


def BOUND(tier):
    return (
        f"{len(ROOT)} absolute and relative import statements: alone, in all pairs, and with one statement (of the C04 alphabets) in "
        "each other file; "
        + ("5 statements" if tier == "quick" else "every statement")
        + f" with two statements in 'p' or 'a'; each statement in {len(CONTEXT)} kinds of blocks and layouts; {len(INVALID)} invalid "
        f"fragments on 3 graphs; {len(CONFIG)} configurations (excludes, implies, aliases, hooks) x each statement, before or after the fragment was used; "
        "the reachable graph is compared with that for a script with the same source and with the static reference of C04"
    )


def cases(tier):
    for s in ROOT:
        yield {"r": [s]}
    for s, t in product(ROOT, repeat=2):
        yield {"r": [s, t]}
    for n in INVALID:
        for base in ([], [P.I("b")], [P.I("zz"), P.F("p", "m")]):
            yield {"r": base, "invalid": n}
    for s in ROOT:
        for c in CONTEXT:
            if s[0] == "star" and c in ("def", "async", "class", "nested"):
                continue  # not valid
            yield {"r": [s], "context": c}
    for s in ROOT:
        for c in CONFIG:
            yield {"r": [s], "config": c}
    others = [m for m in P.FILES if m != "r"]
    for s in ROOT:
        for f in others:
            for t in P.ALPHA[f]:
                yield {"r": [s], f: [t]}
    for s in ROOT:
        if tier == "quick" and not P.interesting(s):
            continue
        for f in ("p", "a", "p.q"):
            for t, u in product(P.ALPHA[f], repeat=2):
                yield {"r": [s], f: [t, u]}
    if tier == "thorough":
        for s, s2 in product(ROOT, repeat=2):
            for f in ("p", "a"):
                for t in P.ALPHA[f]:
                    yield {"r": [s, s2], f: [t]}
        for s in ROOT:
            for cfg in CONFIG:
                for f in ("p", "a"):
                    for t in P.ALPHA[f]:
                        yield {"r": [s], f: [t], "config": cfg}


def files(case):
    return {k: v for k, v in case.items() if k not in ("context", "config", "invalid")}


def relevant(case):
    fs = files(case)
    if len(fs) == 1:
        return True
    mods = P.project(dict(fs, r=[s for s in fs["r"] if s not in REL]))
    return P.normal(mods)


def source(stmts, context):
    if context is None:
        return render(stmts)
    if context == "crlf":
        return render(stmts).replace("\n", "\r\n")
    if context == "semicolon":
        return "x = 1; " + render(stmts).replace("\n", "; y = 2\n")
    if context == "noeol":
        return render(stmts)[:-1] + "  # \xe9"
    return CONTEXT[context].format(render(stmts, " " * 8))


def configure(mg, config):
    if config.startswith("exclude-"):
        mg.add_excludes([config[8:]])
    elif config == "imply-a":
        mg.add_implies({"a": ("b", "p.q.n"), "p": ("ns.k",), "p.m": ("zz",)})
    elif config == "imply-alias":
        import modulegraph2
        mg.add_implies({"a": modulegraph2.Alias("b"), "p.m": modulegraph2.Alias("p.q"), "zz": modulegraph2.Alias("ns.k")})
    elif config == "imply-alias2":
        import modulegraph2
        mg.add_implies({"a": modulegraph2.Alias("zz"), "zz": modulegraph2.Alias("p"), "ns": modulegraph2.Alias("p.q")})
    elif config == "missing-hook":
        import modulegraph2

        def hook(graph, importing, name):
            if name in ("zz", "p.zz"):
                node = modulegraph2.BuiltinModule(name, None, name, None) if 0 else modulegraph2.VirtualNode(name, "hook")
                graph.add_node(node)
                return node
            return None

        mg.add_missing_hook(hook)


def allnodes(mg, root, drop=()):
    g = canon(mg, root)
    live = {n if root not in n else n.replace(root, "$") for n in reachable(mg)} - set(drop)
    return {
        "nodes": {k: v for k, v in g["nodes"].items() if k in live},
        "edges": {k: v for k, v in g["edges"].items() if all(x in live for x in k.split(" -> "))},
        "roots": [],
    }


def run_case(case, env):
    res = Result()
    fs = files(case)
    mods = P.project(dict(fs, r=[]))
    text = source(fs["r"], case.get("context"))
    config = case.get("config", "none")
    with env.case(subdirs=["lib"]) as d:
        write_tree(d, {"lib/" + k: v for k, v in P.tree(mods).items()})
        with open(os.path.join(d, "s.py"), "w", encoding="utf-8" if case.get("context") != "coding" else "latin-1", newline="") as fp:
            fp.write(text)
        if "invalid" in case:
            return invalid(case, res, text, d)

        sg = new_graph()
        configure(sg, config)
        script = sg.add_script(os.path.join(d, "s.py"))
        mg = new_graph()
        configure(mg, config)
        posts = []
        mg.add_post_processing_hook(lambda graph, node: posts.append(node.identifier))
        if text:
            expect(mg.add_dependencies_for_source(text) is None, "add_dependencies_for_source returns a value")
        expect_eq(sorted(posts), sorted(n.identifier for n in mg.nodes()), "nodes passed to a post processing hook")
        want = allnodes(sg, d, ["$/s.py"])
        got = allnodes(mg, d)
        delta = diff_canon(got, want)
        expect(not delta, f"graphs for the fragment and for a script differ: {delta}")

        out = {n.identifier for _, n in sg.outgoing(script)}
        edges = {n.identifier: {tuple(depinfo(x)) for x in ed} for ed, n in sg.outgoing(script)}
        roots = {n.identifier for n in mg.roots()}
        expect(roots <= out, f"roots {sorted(roots - out)} are not imported by the fragment")
        named = {f"{s[2]}.{n}" for s in fs["r"] if s[0] == "from" and s[1] == 0 for n, _ in s[3]}
        for n in out - roots:
            # only what another module binds under an imported name need not be a root
            expect(all(a[2] for a in edges[n]) and not (n in named and isinstance_missing(sg, n)),
                   f"{n!r} is imported by the fragment but is no root {sorted(roots)}")
        expect("" not in roots and "-source-code-" not in {n.identifier for n in mg.nodes()}, "the fragment itself is in the graph")

        # static reference
        if config == "none":
            ref = P.Reference(P.Universe(dict(mods, r=[s for s in fs["r"] if s not in REL])), "r")
            ids = reachable(mg)
            expect(ref.must - {"r"} <= ids or "r" in mods and ref.must - {"r"} <= ids, f"{sorted(ref.must - ids)} are not reachable")
            for n in ids:
                c = type(mg.find_node(n)).__name__
                if c == "MissingModule":
                    expect(n in ref.may_missing, f"{n!r} is missing, no statement names it")
                elif c == "InvalidRelativeImport":
                    expect(any(s in REL for s in fs["r"]) or any(x[0] == n for x in ref.invalid), f"{n!r} is an invalid relative import")
                elif n != "__future__":
                    expect(n in ref.may, f"{n!r} is in the graph, no statement names it")

        # the same fragment again, and a graph to which its statements were added one by one
        before = canon(mg, d)
        mg.add_dependencies_for_source(text)
        delta = diff_canon(canon(mg, d), before)
        expect(not delta, f"adding the fragment again changes the graph: {delta}")
        if len(fs["r"]) == 2:
            one = new_graph()
            for s in fs["r"]:
                one.add_dependencies_for_source(render([s]))
            delta = diff_canon(dict(allnodes(one, d), roots=sorted(n.identifier for n in one.roots())), dict(got, roots=sorted(roots)))
            expect(not delta, f"graphs for the fragment and for its statements one by one differ: {delta}")
        if "config" in case or len(fs) == 1:
            # the fragment and the script in one graph
            for first in (0, 1):
                both = new_graph()
                configure(both, config)
                for x in (first, 1 - first):
                    if x:
                        both.add_dependencies_for_source(text)
                    else:
                        both.add_script(os.path.join(d, "s.py"))
                delta = diff_canon(allnodes(both, d), allnodes(sg, d))
                expect(not delta, f"the fragment and the script in one graph: {delta}")
                expect_eq({n.identifier for n in both.roots()}, roots | {script.identifier}, "roots of a graph with both")
        res.step(len(got["nodes"]) + len(got["edges"]))
        res.state([got, sorted(roots)])
    res.outcome = [len(roots), len(got["nodes"])]
    return res


def isinstance_missing(mg, name):
    return type(mg.find_node(name)).__name__ == "MissingModule"


def invalid(case, res, text, d):
    mg = new_graph()
    mg.add_dependencies_for_source(text)
    before = canon(mg, d)
    raised = None
    try:
        mg.add_dependencies_for_source(INVALID[case["invalid"]])
    except (SyntaxError, ValueError, MemoryError, RecursionError) as exc:
        raised = type(exc).__name__
    expect(raised is not None, "an invalid fragment raises no error")
    delta = diff_canon(canon(mg, d), before)
    expect(not delta, f"an invalid fragment changes the graph: {delta}")
    mg.add_dependencies_for_source("import p.m\n")
    expect("p.m" in reachable(mg), "the graph is not usable after an error")
    res.step(2)
    res.state(canon(mg, d))
    res.outcome = raised
    return res
