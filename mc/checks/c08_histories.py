"""
C08: every API history leaves the specified, well formed graph.
"""
from itertools import product

from .. import histories as H
from ..core import Result, expect, expect_eq
from ..util import new_graph

PROPERTY = "C08"
TITLE = "every sequence of API operations leaves a well formed, complete graph"
ASSUMPTIONS = [
    "one fixed program of 16 modules (cycles, packages, namespace package, alias, missing and invalid modules, two "
    "distributions)",
    "the specification is a 100 line transition system in mc/histories.py that is order independent",
]


def depth(tier):
    return 3 if tier == "quick" else 4


def BOUND(tier):
    return (
        f"all sequences of 1..{depth(tier)} operations out of {len(H.OPS)} (add_module, add_script, add_distribution, "
        "add_dependencies_for_source, add_excludes, add_implies, hooks, import_module, import_package), followed by a repetition "
        "of every operation of the sequence; the graph is compared with the model and the invariants after each operation; "
        "state = canonical graph"
    )


setup_env = H.setup


def cases(tier):
    for n in range(1, depth(tier) + 1):
        for seq in product(H.OPS, repeat=n):
            yield list(seq)


def run_case(case, env):
    res = Result()
    root = env.program
    with env.case(extra_path=[root], subdirs=[]):
        mg = new_graph()
        model = H.Model()
        tr = H.Tracker(mg)
        for k, op in enumerate(case):
            err = H.perform(op, mg, root)
            want = model.apply(op)
            expect_eq(err, want, f"error of operation {k} ({H.OPS[op]})")
            tr.check()
            got = H.compare(mg, model, root, f"after operation {k} ({H.OPS[op]})")
            res.step()
        if model.pending:
            H.perform(H.END, mg, root)
            model.apply(H.END)
            H.compare(mg, model, root, "after the last operation")
        for op in case:
            if op == "mh" or op == "ph":
                continue
            # everything is idempotent, but for operations that are affected by later configuration
            before = H.real_canon(mg, root)
            H.perform(op, mg, root)
            model.apply(op)
            if model.pending:
                H.perform(H.END, mg, root)
                model.apply(H.END)
            tr.check()
            got = H.compare(mg, model, root, f"repeating {H.OPS[op]}")
            expect(not (H.OPS[op][0] in ("module", "script", "dist", "source", "excludes", "implies")) or got == before,
                   f"repeating {H.OPS[op]} changes the graph")
            res.step()
        res.state([got, sorted(model.excl), bool(model.implied), model.mh, model.ph])
    res.outcome = [len(model.nodes), len(model.edges)]
    return res
