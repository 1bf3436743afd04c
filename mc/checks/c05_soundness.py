"""
C05: nothing is invented - nodes, edges and missing modules are exact.
"""
from ..core import Result, expect
from ..util import write_tree, new_graph, canon, reachable, depinfo
from .. import projects as P
from . import c04_completeness as c04

PROPERTY = "C05"
TITLE = "the graph contains no invented modules, edges or missing modules"
ASSUMPTIONS = c04.ASSUMPTIONS[:1] + [
    "a name that a package both binds and contains as submodule may resolve to either",
]
BOUND = c04.BOUND
cases = c04.cases
relevant = P.relevant

KIND = {
    "p": "Package", "p.q": "Package", "ns": "NamespacePackage", "tool": "Package", "tool.x": "Package",
    "d": "Package", "d.e": "Package", "dn": "NamespacePackage",
}


def run_case(case, env):
    res = Result()
    mods = P.project(case)
    uni = P.Universe(mods)
    ref = P.Reference(uni, "r")
    with env.case() as d:
        write_tree(d, P.tree(mods))
        mg = new_graph()
        root = mg.add_module("r")
        reach = reachable(mg)
        nodes = {n.identifier: n for n in mg.nodes()}
        expect(set(n.identifier for n in mg.iter_graph()) == reach, "iter_graph() differs from the nodes reachable over edges")
        expect([r.identifier for r in mg.roots()] == ["r"] and root is nodes["r"], "wrong roots")
        invalid = {n for n, _, _ in ref.invalid}
        for name in sorted(reach):
            kind = type(nodes[name]).__name__
            if name in ref.may:
                want = KIND.get(name, "SourceModule")
            elif name in ref.may_missing:
                want = "MissingModule"
            elif name in invalid:
                want = "InvalidRelativeImport"
            else:
                expect(False, f"node {name!r} ({kind}) is not named by any import statement")
            expect(kind == want, f"{name!r} is a {kind}, should be {want}")
            if want == "SourceModule":
                expect(str(nodes[name].filename) == f"{d}/{P.PATHS[name]}", f"{name!r} has filename {nodes[name].filename}")
        for name in sorted(ref.must_missing):
            expect(name in reach, f"unresolvable name {name!r} is not in the graph")
        for name, src, req in ref.invalid:
            if req:
                expect(name in reach and (src, name) in {(s.identifier, t.identifier) for s, t, _ in mg.edges()},
                       f"invalid relative import {name!r} of {src!r} is not in the graph")
        n_edges = 0
        for src, dst, data in mg.edges():
            s, t = src.identifier, dst.identifier
            if s not in reach:
                continue
            n_edges += 1
            for dep in data:
                attr = tuple(depinfo(dep))
                if (t, s, True) in ref.invalid or (t, s, False) in ref.invalid:
                    expect(attr == (False, True, False, None), f"edge {s!r} -> {t!r} has attributes {attr}")
                    continue
                ok = attr in ref.may_edges.get((s, t), ())
                expect(ok, f"edge {s!r} -> {t!r} with attributes {attr} does not correspond to an import statement")
        res.step(len(reach) + n_edges)
        res.state(canon(mg, d))
        res.outcome = [len([n for n in reach if n in ref.may_missing]), len(reach)]
    return res
