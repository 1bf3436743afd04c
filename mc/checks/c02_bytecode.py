"""
C02: modules for which only byte code is available contribute the same imports as
their source would.
"""
import os
import py_compile
from itertools import product

from ..core import Result, expect, expect_eq
from ..util import write_tree, new_graph, canon, cls
from .. import blocks
from .c01_ast_imports import LIB, FORMS, check_edges

PROPERTY = "C02"
TITLE = "byte-code-only modules contribute the same imports as their source"
ASSUMPTIONS = [
    "byte code is produced by the running CPython 3.12 compiler",
    "statements the compiler removes (dead code) are outside the property",
]
FORMS = dict(FORMS)
FORMS["rel"] = ("from . import ra as rb\n", {"$pkg": {(False, None)}, "$pkg.ra": {(True, None)}})
FORMS["rel2"] = ("from .ra import thing\n", {"$pkg.ra": {(False, None)}})
ALL_FORMS = ["import-both", "import-list", "import-dotted", "import-dotted-as", "from-sub-as",
             "from-attr", "missing", "from-missing", "star"]
PADS = [(0, 0), (300, 0), (0, 300), (300, 300)]
EXTRA = {k[0] for k in blocks.EXTRA}
EDGE = [0, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259]


def BOUND(tier):
    d = 2 if tier == "quick" else 3
    return (
        f"all nestings of the {len(blocks.KINDS) + len(EXTRA)} block kinds up to depth {d} x constant/name-table "
        "padding at module level and in the innermost scope in {0,300}^2; padding sweep "
        f"{EDGE[1]}..{EDGE[-1]} for constants x names around the 256-entry EXTENDED_ARG boundary for "
        "{module, def, class} level imports; thorough adds 65536+ entries; importer in {module, package "
        "__init__}; state = canonical graph; every edge compared with the statement list"
    )


def cases(tier):
    every = [k[0] for k in blocks.KINDS + blocks.EXTRA]
    for form in FORMS:
        for path in blocks.contexts(1, every):
            yield {"path": path, "forms": [form], "pad": [0, 0], "where": "module"}
    for path in ([], ["def"], ["class"], ["def", "class"], ["class", "def"]):
        for c, n in product(EDGE, repeat=2):
            for where in ("module", "inner"):
                yield {"path": path, "forms": ["import", "from-sub-as", "rel"], "pad": [c, n], "where": where}
    for path in blocks.contexts(2, every):
        if any(k in EXTRA for k in path):
            yield {"path": path, "forms": ALL_FORMS + ["rel", "rel2"], "pad": [0, 0], "where": "module"}
    for path in blocks.contexts(1, sorted(EXTRA)):
        yield {"path": path, "forms": ALL_FORMS + ["rel", "rel2"], "pad": [300, 300], "where": "module"}
        yield {"path": path, "forms": ALL_FORMS + ["rel", "rel2"], "pad": [300, 300], "where": "inner"}
    for pad in PADS:
        for path in blocks.contexts(2):
            for where in ("module", "inner") if pad != (0, 0) and path else ("module",):
                yield {"path": path, "forms": ALL_FORMS + ["rel", "rel2"], "pad": list(pad), "where": where}
    for path in ([], ["def"], ["class"], ["class", "def"]):
        yield {"path": path, "forms": ["import", "from-sub-as", "rel"], "pad": [66000, 66000], "where": "module"}
    if tier == "thorough":
        for path in product([k[0] for k in blocks.KINDS], repeat=3):
            for pad in PADS:
                yield {"path": list(path), "forms": ALL_FORMS + ["rel"], "pad": list(pad), "where": "module"}


def setup_env(env):
    env.lib = os.path.join(env.root, "lib")
    write_tree(env.lib, LIB)


def padding(pad):
    c, n = pad
    return "".join(f"pc = {i + 1000}.5\n" for i in range(c)) + "".join(f"pn{i} = cond\n" for i in range(n))


def build(case, pkg):
    want = {}
    path = case["path"]
    body = ""
    fn = any("f" in blocks.FLAGS[k] for k in path)
    for form in case["forms"]:
        if form == "star" and blocks.in_scope(path):
            continue
        src, targets = FORMS[form]
        body += src
        for tgt, infos in targets.items():
            want.setdefault(tgt.replace("$pkg", pkg), set()).update(
                (fn, not fn, fl, None) for fl, an in infos
            )
    if case["where"] == "inner":
        body = padding(case["pad"]) + body
    text = blocks.nest(path, body or "pass\n")
    if case["where"] == "module":
        text = padding(case["pad"]) + text
    return text, want


def run_case(case, env):
    res = Result()
    with env.case(extra_path=[env.lib]) as d:
        write_tree(d, {"bp/__init__.py": "", "bp/ra.py": "", "bq/ra.py": ""})
        for name, rel, pkg in (("bp.imod", "bp/imod.py", "bp"), ("bq", "bq/__init__.py", "bq")):
            text, want = build(case, pkg)
            write_tree(d, {rel: text})
            src = os.path.join(d, rel)
            py_compile.compile(src, src + "c", doraise=True)
            os.unlink(src)
            mg = new_graph()
            mg.add_module(name)
            if name == "bq":
                expect_eq(cls(mg, name), "Package", "class of importer")
                expect_eq(type(mg.find_node(name).init_module).__name__, "BytecodeModule", "class of __init__")
                # a package never needs an edge to itself, "from . import x" may add one
                want = {k: v for k, v in want.items() if k != "bq"}
                edges_ok = {"bq"}
            else:
                expect_eq(cls(mg, name), "BytecodeModule", "class of importer")
                # containing package
                want.setdefault("bp", set()).add((False, True, False, None))
                edges_ok = set()
            if edges_ok:
                got = {t.identifier for _, t in mg.outgoing(name)}
                for e in edges_ok & got:
                    mg.remove_all_edges(name, e)
            check_edges(mg, name, want)
            res.step(len(want))
            res.state(canon(mg, d))
    res.traces = 2
    res.outcome = [sorted({k for k in case["path"] if k == "class" or "f" in blocks.FLAGS[k]}), case["pad"] != [0, 0], case["where"]]
    return res
