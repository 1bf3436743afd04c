"""
C22: traversal is right for graphs of every shape, processing and traversal for chains of every length.
"""
import io
import sys
from itertools import permutations, product

from ..core import Result, expect, expect_eq
from ..util import new_graph, reachable, write_tree

PROPERTY = "C22"
TITLE = "graphs of every shape and chains of any length are processed and traversed"
ASSUMPTIONS = ["implied actions and missing module hooks are not chained hundreds of times"]

LINKS = {
    # kind: (files, next module is named in)
    "import": {"m{i}.py": "import m{j}\n"},
    "as": {"m{i}.py": "import m{j} as x\n"},
    "from": {"m{i}.py": "from m{j} import x\n"},
    "star": {"m{i}.py": "from m{j} import *\n"},
    "reuse": {"m{i}.py": "import m{j} as x\nfrom m{j} import x as y\n"},
    "function": {"m{i}.py": "def f():\n    import m{j}\n"},
    "optional": {"m{i}.py": "try:\n    import m{j}\nexcept ImportError:\n    pass\n"},
    "init": {"m{i}/__init__.py": "import m{j}\n"},
    "sub": {"m{i}/__init__.py": "", "m{i}/s.py": "import m{j}\n"},
    "initsub": {"m{i}/__init__.py": "from . import s\n", "m{i}/s.py": "from m{j} import s\n"},
    "relative": {"m{i}/__init__.py": "from .s import x\n", "m{i}/s.py": "from m{j} import *\n"},
    "back": {"m{i}.py": "import m{j}\nimport m0\n"},
    "invalid": {"m{i}/__init__.py": "if if\n", "m{i}/s.py": "import m{j}\n"},
    "raising": {"m{i}/__init__.py": "raise Exception\n", "m{i}/s.py": "import m{j}\n"},
    "missing": {"m{i}.py": "import zz{i}.y\nimport m{j}\n"},
    "post": {"m{i}.py": ""},
    "ns": {"m{i}/s.py": "import m{j}\n"},
}
#: the module to import to follow a link
ENTRY = {"sub": "m{i}.s", "invalid": "m{i}.s", "raising": "m{i}.s", "ns": "m{i}.s"}
LIMIT = 100


def BOUND(tier):
    n = 3 if tier == "quick" else 4
    return (
        f"all digraphs of up to {n} nodes x sets of roots, made with the node and edge API: iter_graph from the roots and from each node is compared with a fixed point; "
        f"chains of {250 if tier == 'quick' else 1000} links with all periodic sequences of one and two of {len(LINKS)} kinds of links, processed, traversed and exported "
        f"with {LIMIT} stack frames; nested packages; state = the node sets"
    )


def cases(tier):
    for n in range(0, 4 if tier == "quick" else 5):
        pairs = list(product(range(n), repeat=2))
        for mask in range(1 << len(pairs)):
            if n == 4 and any(mask >> k & 1 for k, (a, b) in enumerate(pairs) if a == b):
                continue
            for roots in range(1 << n):
                yield {"digraph": n, "mask": mask, "roots": roots}
    length = 250 if tier == "quick" else 1000
    for a in LINKS:
        yield {"chain": [a], "n": length}
    for a, b in permutations(LINKS, 2):
        yield {"chain": [a, b], "n": length // 2}
    for depth in (1, 2, 10, 30, 60):
        for kind in ("init", "ns", "invalid", "mixed"):
            # namespace packages take exponential time in the import system
            if kind == "ns" and depth > 10 or kind == "mixed" and depth > 30:
                continue
            yield {"nested": kind, "n": depth}


def run_case(case, env):
    res = Result()
    if "digraph" in case:
        digraph(case, res)
    elif "chain" in case:
        chain(case, env, res)
    else:
        nested(case, env, res)
    return res


def digraph(case, res):
    import modulegraph2 as M

    n = case["digraph"]
    pairs = [p for k, p in enumerate(product(range(n), repeat=2)) if case["mask"] >> k & 1]
    mg = new_graph(use_stdlib_implies=False, use_builtin_hooks=False)
    nodes = [M.MissingModule(f"n{i}") for i in range(n)]
    for x in nodes:
        mg.add_node(x)
    for a, b in pairs:
        mg.add_edge(nodes[a], nodes[b], M.DependencyInfo(False, True, False, None))
    roots = [i for i in range(n) if case["roots"] >> i & 1]
    for i in roots:
        mg.add_root(nodes[i])

    def closure(start):
        seen = set(start)
        while True:
            more = {b for a, b in pairs if a in seen} - seen
            if not more:
                return {f"n{i}" for i in seen}
            seen |= more

    got = [x.identifier for x in mg.iter_graph()]
    expect_eq(sorted(got), sorted(closure(roots)), "iter_graph")
    for i in range(n):
        for arg in (nodes[i], f"n{i}"):
            got = [x.identifier for x in mg.iter_graph(node=arg)]
            expect_eq(sorted(got), sorted(closure([i])), f"iter_graph(node=n{i})")
            expect_eq(got[0], f"n{i}", "first node of iter_graph")
            # depth first
            pos = {x: k for k, x in enumerate(got)}
            for x in got[1:]:
                expect(any(pos.get(f"n{a}", n) < pos[x] for a, b in pairs if f"n{b}" == x), f"iter_graph yields {x} before a node that uses it")
    try:
        list(mg.iter_graph(node="nosuch"))
    except KeyError:
        pass
    else:
        expect(False, "iter_graph for an unknown node does not raise KeyError")
    # an iteration that is not completed does not influence other ones
    it = mg.iter_graph()
    next(it, None)
    expect_eq(sorted(x.identifier for x in mg.iter_graph()), sorted(closure(roots)), "iter_graph during another iteration")
    res.step(n + 1)
    res.state([n, sorted(map(list, pairs)), roots])
    res.outcome = ["digraph", n, len(closure(roots))]


class limit:
    """A recursion limit relative to the current depth"""

    def __enter__(self):
        depth, f = 0, sys._getframe()
        while f is not None:
            depth, f = depth + 1, f.f_back
        self.old = sys.getrecursionlimit()
        sys.setrecursionlimit(depth + LIMIT)

    def __exit__(self, *args):
        sys.setrecursionlimit(self.old)


def outputs(mg):
    import modulegraph2.__main__ as main

    for fmt in main.OutputFormat:
        main.print_graph(io.StringIO(), fmt, mg)
    mg.report(io.StringIO())
    list(mg.distributions())
    return [x.identifier for x in mg.iter_graph()]


def chain(case, env, res):
    kinds, n = case["chain"], case["n"]
    files, entry = {}, []
    for i in range(n):
        entry.append(ENTRY.get(kinds[i % len(kinds)], "m{i}").format(i=i))
    files[f"m{n}.py"] = "x = 1\n"
    entry.append(f"m{n}")
    want = set(entry) | {e.split(".")[0] for e in entry}
    for i in range(n):
        kind = kinds[i % len(kinds)]
        for fn, text in LINKS[kind].items():
            nxt = entry[i + 1]
            if "." in nxt and "from m{j}" in text:
                # the names are in the submodule
                text = text.replace("m{j}", nxt)
            elif "import m{j}" in text:
                text = text.replace("m{j}", nxt)
            files[fn.format(i=i)] = text.format(i=i, j=i + 1)
        if kind in ("initsub", "relative"):
            want.add(f"m{i}.s")

    def hook(mg, node):
        if node.name.startswith("m") and "." not in node.name and "zz" not in node.name:
            i = int(node.name[1:])
            if i < n and kinds[i % len(kinds)] == "post":
                mg.import_module(node, entry[i + 1])

    with env.case() as d:
        write_tree(d, files)
        mg = new_graph()
        mg.add_post_processing_hook(hook)
        with limit():
            mg.add_module(entry[0])
        with limit():
            got = outputs(mg) if len(kinds) == 1 else [x.identifier for x in mg.iter_graph()]
        expect_eq(len(got), len(set(got)), "iter_graph yields a node twice")
        missing = sorted(want - set(got), key=lambda x: (len(x), x))
        expect(not missing, f"{len(missing)} modules of the chain are not in the graph, the first is {missing[:1]}")
        expect_eq(set(got), reachable(mg), "iter_graph")
        kindsof = {type(mg.find_node(x)).__name__ for x in want}
        expect(not kindsof & {"MissingModule", "InvalidModule"}, f"{kindsof}")
        res.step(len(got))
        res.state([kinds, n])
        res.outcome = ["chain", len(kinds)]


def nested(case, env, res):
    kind, n = case["nested"], case["n"]
    files, name = {}, ""
    for i in range(n):
        name = name + "/p" if name else "p"
        if kind == "init" or kind == "mixed" and i % 3 == 0:
            files[name + "/__init__.py"] = "x = 1\n"
        elif kind == "invalid" or kind == "mixed" and i % 3 == 1:
            files[name + "/__init__.py"] = "if if\n"
    files[name + "/m.py"] = "from ." + "." * (n - 1) + " import x\nfrom . import k\nimport zz\n"
    files[name + "/k.py"] = ""
    full = name.replace("/", ".") + ".m"
    with env.case() as d:
        write_tree(d, files)
        mg = new_graph()
        # the import system itself uses several stack frames for each level
        mg.add_module(full)
        got = {x.identifier for x in mg.iter_graph()}
        want = {".".join(["p"] * k) for k in range(1, n + 1)} | {full, name.replace("/", ".") + ".k", "zz"}
        expect_eq(sorted(want - got), [], "modules that are not in the graph")
        for x in want - {"zz"}:
            expect(type(mg.find_node(x)).__name__ in ("Package", "NamespacePackage", "SourceModule"), f"{x} is a {type(mg.find_node(x)).__name__}")
        res.step(len(got))
        res.state([kind, n])
        res.outcome = ["nested", kind]
