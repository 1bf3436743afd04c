"""
C10: operations that fail have no effect.
"""
import os
from itertools import product

from .. import histories as H
from ..core import Result, expect, expect_eq
from ..util import canon, diff_canon, new_graph

PROPERTY = "C10"
TITLE = "operations that fail leave the graph as it was and usable"
ASSUMPTIONS = ["failures are those of the documented error conditions and of invalid arguments"]


class Stop(Exception):
    pass


def raising_context(mg, root):
    with mg.hook_context():
        raise Stop("x")


def importing_context(mg, root):
    """everything before the exception is still completed"""
    with mg.hook_context():
        a = mg.find_node("a")
        if a is not None:
            mg.import_module(a, "c")
        raise Stop("x")


def script(name):
    return lambda mg, root: mg.add_script(os.path.join(root, name))


#: name -> (operation, expected exception types)
FAIL = {
    "script-absent": (script("nope.py"), "OSError"),
    "script-syntax": (script("err.py"), "SyntaxError"),
    "script-compile": (script("ret.py"), "SyntaxError"),
    "script-compile2": (script("glob.py"), "SyntaxError"),
    "script-encoding": (script("enc.py"), "SyntaxError"),
    "script-codec": (script("nocod.py"), "SyntaxError"),
    "script-rot13": (script("rot.py"), "SyntaxError"),
    "script-null": (script("null.py"), "SyntaxError ValueError"),
    "script-directory": (script("p"), "OSError"),
    "script-nodir": (script("nope/x.py"), "OSError"),
    "script-infile": (script("a.py/x.py"), "OSError"),
    "dist-unknown": (lambda mg, root: mg.add_distribution("nope"), "ValueError"),
    "dist-modname": (lambda mg, root: mg.add_distribution("a"), "ValueError"),
    "excludes-str": (lambda mg, root: mg.add_excludes("ab"), "TypeError"),
    "source-syntax": (lambda mg, root: mg.add_dependencies_for_source("import c\nx = = 1\n"), "SyntaxError"),
    "source-null": (lambda mg, root: mg.add_dependencies_for_source("import c\n\0"), "SyntaxError ValueError"),
    "module-empty": (lambda mg, root: mg.add_module(""), "ValueError"),
    "context": (raising_context, "Stop"),
    "context-import": (importing_context, "Stop"),
}


def is_a(exc, names):
    return any(t.__name__ in names.split() for t in type(exc).__mro__)


def BOUND(tier):
    n = 2 if tier == "quick" else 3
    return (
        f"all sequences of 0..{n} API operations (see C08) with each of {len(FAIL)} failing operations inserted at every position "
        "and repeated at the end; the complete graph before and after each failure is compared, and the rest of the history with the model"
    )


setup_env = H.setup


def cases(tier):
    for n in range(0, (2 if tier == "quick" else 3) + 1):
        for seq in product(H.OPS, repeat=n):
            for f in FAIL:
                for pos in range(n + 1):
                    yield [list(seq), f, pos]


def run_case(case, env):
    seq, fail, pos = case
    res = Result()
    root = env.program

    def failing():
        before = canon(mg, root)
        func, exc_names = FAIL[fail]
        try:
            func(mg, root)
        except Exception as exc:
            expect(is_a(exc, exc_names), f"{fail}: raises {type(exc).__name__}: {exc}, expected {exc_names}")
        else:
            expect(False, f"{fail}: did not fail")
        tr.check()
        if fail == "context-import" or fail == "context" and model.pending:
            # finishes earlier work
            model.apply(H.END)
            if "a" in model.nodes and fail == "context-import":
                model.apply("h")
            H.compare(mg, model, root, f"after {fail}")
        else:
            after = canon(mg, root)
            expect(before == after, f"{fail} changes the graph: {diff_canon(after, before)}")
        res.step()

    with env.case(extra_path=[root], subdirs=[]):
        mg = new_graph()
        model = H.Model()
        tr = H.Tracker(mg)
        for k, op in enumerate(seq):
            if k == pos:
                failing()
            err = H.perform(op, mg, root)
            expect_eq(err, model.apply(op), f"error of operation {k} ({H.OPS[op]})")
            tr.check()
            H.compare(mg, model, root, f"operation {k} ({H.OPS[op]}), {fail} at {pos}")
            res.step()
        if pos == len(seq):
            failing()
        failing()
        res.state([canon(mg, root), fail, pos])
    res.outcome = [fail, len(model.nodes)]
    return res
