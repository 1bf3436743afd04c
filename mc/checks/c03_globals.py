"""
C03: the sets of global names a module writes and reads are computed exactly.
"""
import os
import py_compile
from itertools import product

from ..core import Result, expect, expect_eq
from ..util import write_tree, new_graph, cls
from .. import blocks

PROPERTY = "C03"
TITLE = "global names written and read by a module are computed exactly"
ASSUMPTIONS = [
    "reads in class bodies (ambiguous between class and global scope) are not compared",
    "a from-import may additionally report the imported (pre-rename) name as written",
]

# name -> (source, bound names when the statement is at module scope,
#          global names written in any scope, global names read in any scope, free names)
# names in `free` may appear in globals_written or not
FORMS = {
    "assign": ("g_a = 1", {"g_a"}, set(), set()),
    "multi": ("g_a = g_b = 1\n(g_c, [g_d, *g_e]) = cond", {"g_a", "g_b", "g_c", "g_d", "g_e"}, set(), set()),
    "annassign": ("g_a: int = 1", {"g_a"}, set(), set()),
    "for": ("for g_a, g_b in cond: pass", {"g_a", "g_b"}, set(), set()),
    "with": ("with cond as g_a: pass", {"g_a"}, set(), set()),
    "def": ("def g_a(g_p): return g_p", {"g_a"}, set(), set()),
    "adef": ("async def g_a(): pass", {"g_a"}, set(), set()),
    "class": ("class g_a: pass", {"g_a"}, set(), set()),
    "import": ("import m1 as g_a", {"g_a"}, set(), set()),
    "import2": ("import g_a.b", {"g_a"}, set(), set()),
    "from": ("from m3 import g_a, g_b as g_c", {"g_a", "g_c"}, set(), set(), {"g_b", "g_a"}),
    "walrus": ("(g_a := 1)", {"g_a"}, set(), set()),
    "walrus-comp": ("[(g_a := i) for i in cond]", {"g_a"}, set(), set(), set(), "noclass"),
    "match": ("match cond:\n    case [g_a, *g_b]: pass\n    case {'k': g_c, **g_d}: pass", {"g_a", "g_b", "g_c", "g_d"}, set(), set()),
    "type": ("type g_a = int", {"g_a"}, set(), set()),
    "read": ("print(g_r)", set(), set(), {"g_r"}),
    "read-attr": ("g_r.attr.other = g_s[0]", set(), set(), {"g_r", "g_s"}),
    "read-call": ("g_r(1, k=g_s, **g_t)", set(), set(), {"g_r", "g_s", "g_t"}),
    "read-fstr": ("f'{g_r} {g_s!r:>{g_t}}'", set(), set(), {"g_r", "g_s", "g_t"}),
    "read-lambda": ("(lambda g_p, d=g_s: g_r + g_p)", set(), set(), {"g_r", "g_s"}),
    "read-comp": ("[g_r for i in g_s if g_t]", set(), set(), {"g_r", "g_s", "g_t"}),
    "read-gen": ("(g_r(i) for i in g_s)", set(), set(), {"g_r", "g_s"}),
    "read-func": ("def fz(): return g_r", set(), set(), {"g_r"}),
    "read-nested": ("def fz():\n    def fy():\n        return lambda: g_r\n    return fy", set(), set(), {"g_r"}),
    "read-default": ("def fz(a=g_r): pass", set(), set(), {"g_r"}),
    "read-decor": ("@g_r\ndef fz(): pass", set(), set(), {"g_r"}),
    "read-annot": ("def fz(a: g_r) -> g_s: pass", set(), set(), {"g_r", "g_s"}),
    "read-method": ("class Cz:\n    def m(self): return g_r", set(), set(), {"g_r"}),
    "read-bases": ("class Cz(g_r, metaclass=g_s): pass", set(), set(), {"g_r", "g_s"}),
    "aug": ("def fz():\n    global g_a\n    g_a += 1", set(), {"g_a"}, {"g_a"}),
    "global": ("def fz():\n    global g_a\n    g_a = 1", set(), {"g_a"}, set()),
    "global-import": ("def fz():\n    global g_a, g_b\n    import m1 as g_a\n    import g_b", set(), {"g_a", "g_b"}, set()),
    "global-from": ("def fz():\n    global g_a\n    from m3 import attr as g_a", set(), {"g_a"}, set()),
    "global-def": ("def fz():\n    global g_a, g_b\n    def g_a(): pass\n    class g_b: pass", set(), {"g_a", "g_b"}, set()),
    "global-for": ("def fz():\n    global g_a\n    for g_a in cond: pass", set(), {"g_a"}, set()),
    "global-nested": ("def fz():\n    def fy():\n        global g_a\n        g_a = g_r\n", set(), {"g_a"}, {"g_r"}),
    "global-method": ("class Cz:\n    def m(self):\n        global g_a\n        g_a = 1", set(), {"g_a"}, set()),
    "global-gen": ("async def fz():\n    global g_a\n    g_a = [x async for x in g_r]", set(), {"g_a"}, {"g_r"}),
    "global-class": ("class Cz:\n    global g_a, g_b\n    g_a = 1\n    from m3 import attr as g_b\n    def g_l(self): pass", set(), {"g_a", "g_b"}, set()),
    "global-class2": ("def fz():\n    class Cz:\n        class Cy:\n            global g_a\n            import m1 as g_a\n            g_l = 1", set(), {"g_a"}, set()),
    "generic": ("def fz[g_l: g_r](a: g_s) -> g_l: return g_t", set(), set(), {"g_r", "g_s", "g_t"}),
    "generic-class": ("class g_a[g_l](g_r[g_l]):\n    g_m = 1\n    def g_n(self): return g_s", {"g_a"}, set(), {"g_r", "g_s"}),
    "generic-type": ("type g_a[g_l] = g_r[g_l]", {"g_a"}, set(), {"g_r"}),
    "except-as": ("try: pass\nexcept g_r as g_a: pass", {"g_a"}, set(), {"g_r"}),
    "del": ("g_a = 1\ndel g_a", {"g_a"}, set(), set()),
    "import-multi": ("import g_a, m1 as g_b, g_c.d, g_e.f as g_g", {"g_a", "g_b", "g_c", "g_g"}, set(), set()),
    "local": ("def fz(g_p):\n    g_l = 1\n    return g_l, g_p", set(), set(), set()),
    "local-import": ("def fz():\n    import m1 as g_l\n    return g_l", set(), set(), set()),
    "closure": ("def fz():\n    g_l = 1\n    def fy():\n        nonlocal g_l\n        g_l += 1\n    return fy", set(), set(), set()),
    "class-attr": ("class Cz:\n    g_l = 1\n    def g_m(self): pass\n    import m1 as g_n", set(), set(), set()),
    "class-in-def": ("def fz():\n    class Cz:\n        g_l = 1\n        def g_m(self): return g_r", set(), set(), {"g_r"}),
    "comp-local": ("[g_l for g_l in cond]", set(), set(), set()),
    "dunder": ("print(__file__)\nv = __import__('m1')", set(), set(), {"__file__", "__import__"}),
    "dunder-file": ("def fz(): return __file__", set(), set(), {"__file__"}),
    "dunder-import": ("def fz(): return __import__", set(), set(), {"__import__"}),
    "star": ("from stm import *", {"g_x", "g_y"}, set(), set(), set(), "module"),
    "star-pkg": ("from stp import *", {"g_x", "g_y", "g_z", "g_w"}, set(), set(), set(), "module"),
    "star-chain": ("from st2 import *\nfrom stmiss import *", {"g_x", "g_y", "g_q"}, set(), set(), set(), "module"),
    "star-def": ("from st3 import *", {"g_fn", "g_cl", "g_im", "g_gl"}, set(), set(), set(), "module"),
    "from-pkg": ("from stp import sub as g_s1, g_z", {"g_s1", "g_z"}, set(), set()),
    "none": ("pass", set(), set(), set()),
}
LIB = {"m1.py": "", "m3.py": "attr = 1\n", "stm.py": "g_x = 1\ng_y = 2\n",
       "stp/__init__.py": "from stm import *\ng_z = 1\nfor g_w in []: pass\n", "stp/sub.py": "g_no = 1\n",
       "st2.py": "from st2b import *\n", "st2b.py": "from stm import *\ng_q = 1\ndef f(): g_no = 1\n",
       "st3.py": "def g_fn(g_no): g_no2 = 1\nclass g_cl: g_no3 = 1\nimport m1 as g_im\ndef f():\n    global g_gl\n    g_gl = 1\n"}
FSCOPES = ["def", "adef", "afor", "awith", "lambdadef"]


def BOUND(tier):
    return (
        f"{len(FORMS)} binding/reading forms x all contexts of depth <= {2 if tier == 'quick' else 3} over "
        f"{len(blocks.KINDS)} block kinds (function scopes with and without a 'global' declaration), all pairs of "
        "forms at module level, padding with 300 names/constants, importer in {source module, byte-code "
        "module, package __init__, script}; non-trivial = at least one g_* name classified"
    )


def cases(tier):
    extra = [k[0] for k in blocks.EXTRA]
    for form in FORMS:
        for path in blocks.contexts(1, [k[0] for k in blocks.KINDS] + extra):
            for pad in (0, 300):
                yield {"forms": [form], "path": path, "pad": pad}
    for a, b in product(FORMS, repeat=2):
        yield {"forms": [a, b], "path": [], "pad": 0}
    for form in FORMS:
        for path in list(product(["class", "def"], extra)) + list(product(extra, extra + ["class", "def"])):
            yield {"forms": [form], "path": list(path), "pad": 0}
        for path in product([k[0] for k in blocks.KINDS], repeat=2):
            yield {"forms": [form], "path": list(path), "pad": 0}
    if tier == "thorough":
        for form in FORMS:
            for path in product([k[0] for k in blocks.KINDS], repeat=3):
                yield {"forms": [form], "path": list(path), "pad": 0}


def setup_env(env):
    env.lib = os.path.join(env.root, "lib")
    write_tree(env.lib, LIB)


def build(case):
    path = case["path"]
    scope = "module"
    for k in path:
        if "f" in blocks.FLAGS[k]:
            scope = "function"
        if k in blocks.CLASSES:
            scope = "class"
    text = ""
    written, reads, free, free_reads, never = set(), set(), set(), set(), set()
    for form in case["forms"]:
        spec = FORMS[form]
        src, bound, gw, rd = spec[:4]
        extra_free = spec[4] if len(spec) > 4 else set()
        if len(spec) > 5 and (scope == "class" if spec[5] == "noclass" else scope != "module"):
            src, bound, gw, rd = "pass", set(), set(), set()
        text += src + "\n"
        if scope == "module":
            free |= extra_free
        if scope == "module":
            written |= bound
        written |= gw
        if scope == "class":
            # reads in a class body are ambiguous
            free_reads |= rd
            free_reads |= bound
        else:
            reads |= rd
    for i in range(case["pad"]):
        pass
    body = text
    text = blocks.nest(path, body)
    if case["pad"]:
        text = "".join(f"pn{i} = {i + 1000}.5\n" for i in range(case["pad"])) + text
    return text, written, reads, free, free_reads


def keep(names):
    return {str(n) for n in names if n.startswith("g_") or n in ("__file__", "__import__")}


def run_case(case, env):
    res = Result()
    text, written, reads, free, free_reads = build(case)
    with env.case(extra_path=[env.lib]) as d:
        write_tree(d, {"gs.py": text, "gb.py": text, "gp/__init__.py": text, "scr": text})
        src = os.path.join(d, "gb.py")
        py_compile.compile(src, src + "c", doraise=True)
        os.unlink(src)
        for name in ("gs", "gb", "gp", "scr"):
            mg = new_graph()
            if name == "scr":
                node = mg.add_script(os.path.join(d, "scr"))
            else:
                node = mg.add_module(name)
            gw, gr = keep(node.globals_written), keep(node.globals_read)
            what = f"{type(node).__name__} {name}"
            expect(written - free <= gw, f"{what}: globals_written lacks {sorted(written - free - gw)}")
            expect(gw <= written | free, f"{what}: globals_written has {sorted(gw - written - free)}, never written as globals")
            expect(reads - free_reads <= gr, f"{what}: globals_read lacks {sorted(reads - free_reads - gr)}")
            expect(gr <= reads | free_reads, f"{what}: globals_read has {sorted(gr - reads - free_reads)}, never read as globals")
            if hasattr(node, "uses_dunder_file") and not free_reads:
                expect_eq(node.uses_dunder_file, "__file__" in reads, f"{what}: uses_dunder_file")
                expect_eq(node.uses_dunder_import, "__import__" in reads, f"{what}: uses_dunder_import")
            res.step(len(gw) + len(gr))
            res.state([name, case["forms"], sorted(gw), sorted(gr)])
    res.traces = 4
    res.outcome = [len(written), len(reads)]
    return res
