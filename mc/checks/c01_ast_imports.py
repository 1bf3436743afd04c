"""
C01: every import statement, however nested, is recorded with its exact context.
"""
import os
from itertools import product

from ..core import Result, expect, expect_eq
from ..util import write_tree, new_graph, edge_infos, canon, cls
from .. import blocks

PROPERTY = "C01"
TITLE = "import statements are recorded with their exact context"
ASSUMPTIONS = [
    "block kinds beyond the enumerated ones do not exist in the Python 3.12 grammar",
    "imported targets come from a fixed library of 9 modules/packages and 2 missing names",
]

LIB = {
    "m1.py": "", "m2.py": "", "m3.py": "attr = 1\n", "m4.py": "",
    "pk/__init__.py": "", "pk/sub.py": "", "pk/sub2.py": "", "pk/sub3.py": "",
    "st.py": "import m4\nval = 1\n",
}

# form -> (source, {target: {(in_fromlist, imported_as)}})
FORMS = {
    "import": ("import m1\n", {"m1": {(False, None)}}),
    "import-as": ("import m2 as al2\n", {"m2": {(False, "al2")}}),
    "import-both": ("import m1; import m1 as again\n", {"m1": {(False, None), (False, "again")}}),
    "import-list": ("import m1, m2 as al2, m3\n",
                    {"m1": {(False, None)}, "m2": {(False, "al2")}, "m3": {(False, None)}}),
    "import-dotted": ("import pk.sub\n", {"pk.sub": {(False, None)}}),
    "import-dotted-as": ("import pk.sub as al3\n", {"pk.sub": {(False, "al3")}}),
    "from-sub": ("from pk import sub2\n", {"pk": {(False, None)}, "pk.sub2": {(True, None)}}),
    "from-sub-as": ("from pk import sub2 as s2, sub3\n",
                    {"pk": {(False, None)}, "pk.sub2": {(True, "s2")}, "pk.sub3": {(True, None)}}),
    "from-sub-sub": ("from pk.sub import thing as t\n", {"pk.sub": {(False, None)}}),
    "from-attr": ("from m3 import attr\n", {"m3": {(False, None)}}),
    "missing": ("import nope.deep as q\n", {"nope.deep": {(False, "q")}}),
    "from-missing": ("from nope2 import x\n", {"nope2": {(False, None)}}),
    "star": ("from st import *\n", {"st": {(False, None)}}),
    "from-dup": ("from pk import sub2 as d1, sub3, sub2, sub2 as d2, sub3\n",
                 {"pk": {(False, None)}, "pk.sub2": {(True, "d1"), (True, None), (True, "d2")}, "pk.sub3": {(True, None)}}),
    "from-reexport": ("from st import val, m4 as q1, m4 as q2\n", {"st": {(False, None)}, "m4": {(True, "q1"), (True, "q2")}}),
    "from-paren": ("from pk import (\n    sub,\n    sub2 as x,\n)\n", {"pk": {(False, None)}, "pk.sub": {(True, None)}, "pk.sub2": {(True, "x")}}),
    "from-missing-name": ("from pk import nope as n1, sub\n", {"pk": {(False, None)}, "pk.nope": {(True, "n1")}, "pk.sub": {(True, None)}}),
    "continued": ("import \\\n  m1 as \\\n  al9; from m3 \\\n import attr\n", {"m1": {(False, "al9")}, "m3": {(False, None)}}),
}
ALL_FORMS = ["import-list", "import-dotted", "import-dotted-as", "from-sub-as", "from-attr",
             "missing", "from-missing", "star", "from-dup", "from-reexport"]


def BOUND(tier):
    d = 3 if tier == "quick" else 4
    return (
        f"all nestings of the {len(blocks.KINDS)} Python block kinds up to depth {d} (plus dead-code, "
        "generic and closure blocks at depth <= 2), each with every import form in the innermost body, for importer in "
        "{script, module, package __init__}; every form alone at depth <= 1; all pairs of contexts "
        f"of depth <= {1 if tier == 'quick' else 2} importing the same module (attributes accumulate); "
        "non-trivial = at least one import edge compared attribute by attribute; state = canonical graph"
    )


def cases(tier):
    names = [k[0] for k in blocks.KINDS]
    both = names + [k[0] for k in blocks.DEAD + blocks.EXTRA]
    for form in FORMS:
        for path in blocks.contexts(1, both):
            yield {"path": path, "forms": [form]}
    for path in blocks.contexts(2, both):
        yield {"path": path, "forms": ALL_FORMS}
    for a, b in product(blocks.contexts(1 if tier == "quick" else 2), repeat=2):
        yield {"pair": [a, b]}
    for kind in names:
        for depth in (5, 8):
            yield {"path": [kind] * depth, "forms": ALL_FORMS}
    for path in product(names, repeat=3):
        yield {"path": list(path), "forms": ALL_FORMS}
    if tier == "thorough":
        for path in product(names, repeat=4):
            yield {"path": list(path), "forms": ALL_FORMS, "only": "script"}


def setup_env(env):
    env.lib = os.path.join(env.root, "lib")
    write_tree(env.lib, LIB)


def info(path, fromlist, asname):
    f, i, t = blocks.flags(path)
    return (f or i or t, not f, fromlist, asname)


def build(case):
    want = {}
    if "pair" in case:
        text = ""
        for n, path in enumerate(case["pair"]):
            other = ("sub2", "sub3")[n]
            text += blocks.nest(path, "import m1\nfrom pk import sub as s%d\nfrom pk import %s\n" % (n, other), sibling=False) + "\n"
            want.setdefault("m1", set()).add(info(path, False, None))
            want.setdefault("pk", set()).add(info(path, False, None))
            want.setdefault("pk." + other, set()).add(info(path, True, None))
            want.setdefault("pk.sub", set()).add(info(path, True, f"s{n}"))
        return text, want
    path = case["path"]
    body = ""
    for form in case["forms"]:
        if form == "star" and blocks.in_scope(path):
            continue
        src, targets = FORMS[form]
        body += src
        for tgt, infos in targets.items():
            want.setdefault(tgt, set()).update(info(path, fl, an) for fl, an in infos)
    return blocks.nest(path, body or "pass\n"), want


def check_edges(mg, importer, want, lib_only=True):
    got = {}
    for data, tgt in mg.outgoing(importer):
        got[tgt.identifier] = edge_infos(mg, importer, tgt)
    for tgt in want:
        expect(tgt in got, f"no edge {importer!r} -> {tgt!r}; outgoing edges: {sorted(got)}")
        expect_eq(got[tgt], want[tgt], f"attributes of edge {importer!r} -> {tgt!r}")
    extra = set(got) - set(want)
    expect(not extra, f"edges from {importer!r} to names that are never imported: {sorted(extra)}")


def run_case(case, env):
    res = Result()
    text, want = build(case)
    with env.case(extra_path=[env.lib]) as d:
        write_tree(d, {"scr.py": text, "imod.py": text, "ipkg/__init__.py": text})
        kinds = ["script", "module", "package"]
        if case.get("only"):
            kinds = [case["only"]]
        for kind in kinds:
            mg = new_graph()
            if kind == "script":
                name = os.path.join(d, "scr.py")
                mg.add_script(name)
            elif kind == "module":
                name = "imod"
                mg.add_module(name)
                expect_eq(cls(mg, name), "SourceModule", "class of importing module")
            else:
                name = "ipkg"
                mg.add_module(name)
                expect_eq(cls(mg, name), "Package", "class of importing package")
            check_edges(mg, name, want)
            res.step(len(want))
            res.state(canon(mg, d))
    res.traces = len(kinds)
    res.outcome = [sorted(map(str, blocks.flags(case["path"]))) if "path" in case else "pair",
                   len(want)]
    return res
