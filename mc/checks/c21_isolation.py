"""
C21: graphs in one process are independent.
"""
import sys
from itertools import combinations, permutations, product

from .. import histories as H
from ..core import Result, expect, expect_eq
from ..util import new_graph, write_tree

PROPERTY = "C21"
TITLE = "module graphs in one process do not influence each other"
ASSUMPTIONS = [
    "interleaving is at the level of API operations in one thread (the library makes no promise about threads)",
    "PyPIDistribution objects are documented to be shared",
]


def sizes(tier):
    return [(1, 1), (2, 1)] if tier == "quick" else [(1, 1), (2, 1), (1, 2), (2, 2)]


def BOUND(tier):
    return (
        f"all interleavings of two histories with lengths {sizes(tier)} over the {len(H.OPS)} API operations of C08 on two graphs in the "
        "same process, the second of which was created before or after the operations on the first, plus a third graph that is created "
        "afterwards; all are compared with the model after each step and share no nodes; "
        "the four combinations of constructor options for each pair of single operations; all pairs"
        f"{'' if tier == 'quick' else ' and triples'} of search paths (the 16 sequences of three directories) for graphs after each other, with "
        "distributions that record files in another directory"
    )


setup_env = H.setup

#: three directories; files in C are recorded by distributions in A and B
SITES = {
    "A/m.py": "import k\n", "B/m.py": "import n\n", "B/n.py": "", "C/k.py": "import n\n", "C/n.py": "import zz\n",
    "A/da-1.dist-info/METADATA": "Name: da\nVersion: 1\n", "A/da-1.dist-info/RECORD": "m.py,,\n../C/k.py,,\n",
    "B/db-1.dist-info/METADATA": "Name: db\nVersion: 1\n", "B/db-1.dist-info/RECORD": "m.py,,\n../C/k.py,,\n",
    "B/da-2.dist-info/METADATA": "Name: da\nVersion: 2\n", "B/da-2.dist-info/RECORD": "n.py,,\n",
}
SITE_OPS = ["m", "k", "n", "da", "db"]


def site_path(path):
    """for a search path: module -> (directory, distribution), distribution -> (directory, modules)"""
    mods, dists = {}, {}
    for x in path:
        if x in "AB":
            mods.setdefault("m", (x, "da1" if x == "A" else "db1"))
            dists.setdefault("da", (x, ["m"] if x == "A" else ["n"]))
        if x == "B":
            mods.setdefault("n", (x, "da2"))
            dists.setdefault("db", (x, ["m"]))
        if x == "C":
            mods.setdefault("n", (x, None))
            owner = [y for y in path if y in "AB"]
            mods.setdefault("k", (x, None if not owner else "da1" if owner[0] == "A" else "db1"))
    return mods, dists


def site_imports(mods, name):
    if name not in mods:
        return []
    return {"mA": ["k"], "mB": ["n"], "kC": ["n"], "nC": ["zz"]}.get(name + mods[name][0], [])


def run_sites(case, env, res):
    """graphs that are built with different search paths"""
    with env.case(subdirs=[]) as d:
        write_tree(d, SITES)
        base = list(sys.path)
        graphs = []
        for path, ops in case["sites"]:
            sys.path[:] = [f"{d}/{x}" for x in path] + base
            mods, dists = site_path(path)
            mg = new_graph()
            graphs.append(mg)
            todo = []
            for op in ops:
                try:
                    (mg.add_distribution if op[0] == "d" else mg.add_module)(op)
                    ok = True
                except ValueError:
                    ok = False
                expect_eq(ok, op[0] != "d" or op in dists, f"{op} can be added with search path {path}")
                if op[0] != "d":
                    todo.append(op)
                elif ok:
                    todo += dists[op][1]
            seen = set()
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo += site_imports(mods, x)
            have = {}
            for n in mg.iter_graph():
                if type(n).__name__ == "PyPIDistribution":
                    continue
                fn = getattr(n, "filename", None)
                have[n.identifier] = [fn and str(fn)[len(d) + 1], n.distribution and n.distribution.name + n.distribution.version]
            want = {x: list(mods.get(x, (None, None))) for x in seen}
            expect_eq(have, want, f"directories and distributions of the modules in a graph that is built with {path} after {[p for p, _ in case['sites'][:len(graphs) - 1]]}")
            owners = {x[1] for x in want.values() if x[1]}
            expect_eq({x.name + x.version for x in mg.distributions()}, owners, "ModuleGraph.distributions")
            res.step()
            res.state(sorted(have.items()))
        sys.path[:] = base
    res.outcome = [len(graphs)]
    return res


def cases(tier):
    for n, m in sizes(tier):
        for s1 in product(H.OPS, repeat=n):
            for s2 in product(H.OPS, repeat=m):
                for where in combinations(range(n + m), m):
                    yield [list(s1), list(s2), list(where), 0]
                if (n, m) == (1, 1):
                    for opt in (1, 2, 3):
                        yield [list(s1), list(s2), [1], opt]
    paths = ["".join(p) for n in range(4) for p in permutations("ABC", n)]
    for p1, p2 in product(paths, repeat=2):
        for ops in [SITE_OPS, SITE_OPS[::-1]] + [[x] for x in SITE_OPS]:
            for ops2 in (SITE_OPS, SITE_OPS[:3], SITE_OPS[3:]):
                yield {"sites": [[p1, ops], [p2, ops2]]}
        if tier == "thorough":
            for p3 in paths:
                yield {"sites": [[p1, SITE_OPS], [p2, SITE_OPS], [p3, SITE_OPS[:3]]]}


def run_case(case, env):
    if isinstance(case, dict):
        return run_sites(case, env, Result())
    s1, s2, where, opt = case
    res = Result()
    root = env.program
    with env.case(extra_path=[root], subdirs=[]):
        kw = [{}, {}]
        if opt & 1:
            kw[1]["use_stdlib_implies"] = False
        if opt & 2:
            kw[1]["use_builtin_hooks"] = False
        graphs = [new_graph(**kw[0]), new_graph(**kw[1])]
        models = [H.Model(), H.Model()]
        todo = [list(s1), list(s2)]
        total = len(s1) + len(s2)
        for k in range(total):
            w = 1 if k in where else 0
            op = todo[w].pop(0)
            err = H.perform(op, graphs[w], root)
            expect_eq(err, models[w].apply(op), f"error of {H.OPS[op]} on graph {w}")
            H.compare(graphs[w], models[w], root, f"graph {w} after {H.OPS[op]}, {k} operations on both")
            res.step()
        for x in (0, 1):
            H.compare(graphs[x], models[x], root, f"graph {x} in the end")
        third, model = new_graph(), H.Model()
        for op in s1 + s2:
            err = H.perform(op, third, root)
            expect_eq(err, model.apply(op), f"error of {H.OPS[op]} on a new graph")
        got = H.compare(third, model, root, "a graph created afterwards")
        seen = {}
        for x, g in enumerate(graphs + [third]):
            H.Tracker(g).check()
            for n in g.nodes():
                if type(n).__name__ == "PyPIDistribution":
                    continue
                for obj in (n, n.extension_attributes) + tuple(
                    v for v in (getattr(n, "init_module", None),) if v is not None
                ):
                    expect(seen.setdefault(id(obj), x) == x, f"graphs {x} and {seen[id(obj)]} share an object of {n.identifier!r}")
                gl = getattr(n, "globals_written", None)
                if gl and type(gl) is set:
                    expect(seen.setdefault(id(gl), x) == x, f"graphs share the globals of {n.identifier!r}")
        res.state([got, H.real_canon(graphs[0], root), H.real_canon(graphs[1], root)])
    res.outcome = [len(models[0].nodes), len(models[1].nodes)]
    return res
