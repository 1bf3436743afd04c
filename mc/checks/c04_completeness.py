"""
C04: everything a program really imports is reachable in the graph.
"""
from ..core import Result, expect
from ..util import write_tree, new_graph, canon, reachable
from .. import projects as P

PROPERTY = "C04"
TITLE = "every module a program imports at run time is reachable in the graph"
ASSUMPTIONS = [
    "programs are built from import statements and assignments (no __import__, __all__ or sys.path changes)",
    "the run-time oracle is CPython's own import system on the same files",
]


def BOUND(tier):
    return (
        "projects over 9 files (2 toplevel modules, package with two submodules and a subpackage, namespace "
        f"package) with {len(P.ABS)} absolute and {len(P.REL_P)}/{len(P.REL_Q)} relative statement shapes: every root "
        "statement, every pair of root statements, every root statement x one statement in every other file, and "
        + ("5 root statements" if tier == "quick" else "every root statement")
        + " x every pair of other files / of statements in one file; projects with unused files are skipped as "
        "equivalent; less deep (2 or 6 root statements for the largest combinations) for a universe of 10 files with the same names at all levels and one with "
        "special names (__main__, __init__, __path__, _s); each case is executed for real and compared with the graph; state = canonical graph"
    )


def cases(tier):
    return P.enum_worlds(tier)


relevant = P.relevant


def run_case(case, env):
    res = Result()
    mods = P.project(case)
    uni = P.Universe(mods)
    ref = P.Reference(uni, "r")
    with env.case() as d:
        write_tree(d, P.tree(mods))
        loaded, missing, error = P.really_import(env, ["r"])
        mg = new_graph()
        mg.add_module("r")
        reach = reachable(mg)
        got = {n.identifier: type(n).__name__ for n in mg.nodes() if n.identifier in reach}
        for name in sorted(loaded):
            expect(name in got, f"{name!r} is imported at run time but not reachable in the graph {sorted(got)}")
            expect(got[name] not in ("MissingModule", "ExcludedModule", "InvalidRelativeImport", "InvalidModule"),
                   f"{name!r} is imported at run time but is a {got[name]} in the graph")
        for name in missing:
            if name is not None:
                expect(got.get(name) == "MissingModule",
                       f"{name!r} cannot be found at run time but is {got.get(name)} in the graph")
        # statements after a failing one still count
        for name in sorted(ref.must):
            expect(name in got, f"{name!r} is named by an import statement but not reachable {sorted(got)}")
        for (src, dst), attrs in ref.must_edges.items():
            have = {tuple([x.is_optional, x.is_global, x.in_fromlist, x.imported_as])
                    for x in edge(mg, src, dst)}
            expect(attrs <= have, f"edge {src!r} -> {dst!r} has attributes {sorted(have, key=repr)}, lacks {sorted(attrs - have, key=repr)}")
        res.step(len(got) + len(ref.must_edges))
        res.state(canon(mg, d))
    res.outcome = ["error" if error else "ok", len(loaded), len(missing)]
    return res


def edge(mg, src, dst):
    try:
        return mg.edge_data(src, dst)
    except KeyError:
        return ()
