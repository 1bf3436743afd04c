"""
C16: whatever is in a module, building the graph completes and the rest of the graph is right.
"""
import importlib.machinery
import importlib.util
import marshal
import struct
import warnings
from itertools import permutations, product

from ..core import Result, expect
from ..util import canon, cls, depinfo, new_graph, reachable, write_tree, zip_tree

PROPERTY = "C16"
TITLE = "building the graph completes whatever the modules contain"
ASSUMPTIONS = [
    "valid modules are those that CPython compiles from the same bytes, or whose byte code it unmarshals",
    "code of packages that runs because a submodule is looked up terminates and raises Exception or SystemExit",
]

MAGIC = importlib.util.MAGIC_NUMBER
SOABI = importlib.machinery.EXTENSION_SUFFIXES[0]
_code = marshal.dumps(compile("import q1", "x.py", "exec"))
_pyc = MAGIC + struct.pack("<I", 0) + b"\0" * 8 + _code

CONTENT = {
    "ok": (".py", b"import q1\n"),
    "syntax": (".py", b"import q1\nif if\n"),
    "empty": (".py", b""),
    "null": (".py", b"import q1\n\0"),
    "utf8": (".py", b"import q1\nx='\xff'\n"),
    "codec": (".py", b"# coding: nope\nimport q1\n"),
    "rot13": (".py", b"# coding: rot13\nimport q1\n"),
    "hex": (".py", b"# coding: hex\nimport q1\n"),
    "utf16cookie": (".py", b"# coding: utf-16\nimport q1\n"),
    "utf16": (".py", "\ufeffimport q1\n".encode("utf-16")),
    "bom": (".py", b"\xef\xbb\xbfimport q1\n"),
    "bomlatin": (".py", b"\xef\xbb\xbf# coding: latin-1\nimport q1\n"),
    "latin": (".py", b"# coding: latin-1\nimport q1\nx='\xe9'\n"),
    "latin2": (".py", b"#!/usr/bin/python\n# -*- coding: iso-8859-15 -*-\nimport q1\nx='\xa4'\n"),
    "latin3": (".py", b"\n\n# coding: latin-1\nimport q1\nx='\xe9'\n"),
    "utf8name": (".py", "import q1\n\u00e9\u00e8 = 1\n".encode()),
    "crlf": (".py", b"import q1\r\nx=1\r\n"),
    "cr": (".py", b"import q1\rx=1\r"),
    "formfeed": (".py", b"\x0cimport q1\n\x0c\nx=1"),
    "backslash": (".py", b"import \\\n  q1"),
    "ctrlz": (".py", b"import q1\n\x1a"),
    "indent": (".py", b" import q1\n"),
    "tabs": (".py", b"if 1:\n        import q1\n\tx=1\n"),
    "parens": (".py", b"x = " + b"(" * 150 + b"1" + b")" * 150 + b"\nimport q1\n"),
    "parens300": (".py", b"x = " + b"(" * 300 + b"1" + b")" * 300 + b"\nimport q1\n"),
    "minus": (".py", b"x = " + b"-" * 20000 + b"1\nimport q1\n"),
    "plus": (".py", b"x = 1" + b"+1" * 20000 + b"\nimport q1\n"),
    "elif": (".py", b"if a: pass\n" + b"elif a: pass\n" * 900 + b"else:\n  import q1\n"),
    "elif8000": (".py", b"if a: pass\n" + b"elif a: pass\n" * 8000 + b"else:\n  import q1\n"),
    "elif2500": (".py", b"if a: pass\n" + b"elif a: pass\n" * 2500 + b"else:\n  import q1\n"),
    "plus2500": (".py", b"x = 1" + b"+1" * 2500 + b"\nimport q1\n"),
    "attr2500": (".py", b"x = a" + b".b" * 2500 + b"\nimport q1\n"),
    "call2500": (".py", b"import q1\nx = a" + b"()" * 2500 + b"\n"),
    "lambda2500": (".py", b"import q1\nx = " + b"lambda:" * 2500 + b"1\n"),
    "tern2500": (".py", b"import q1\nx = 1" + b" if a else 1" * 2500 + b"\n"),
    "nest": (".py", "".join(" " * k + "if a:\n" for k in range(95)).encode() + b" " * 95 + b"import q1\n"),
    "surrogate": (".py", b"x='\\ud800'\nimport q1\n"),
    "return": (".py", b"import q1\nreturn 1\n"),
    "future": (".py", b"import q1\nfrom __future__ import nope\n"),
    "futureok": (".py", b"from __future__ import annotations\nimport q1\n"),
    "nonlocal": (".py", b"import q1\nnonlocal x\n"),
    "break": (".py", b"import q1\nbreak\n"),
    "await": (".py", b"import q1\nawait x\n"),
    "bigint": (".py", b"import q1\nx = " + b"9" * 5000 + b"\n"),
    "py2": (".py", b"import q1\nprint 'x'\n"),
    "starfunc": (".py", b"import q1\ndef f():\n  from a import *\n"),
    "pyc": (".pyc", _pyc),
    "pyc-magic": (".pyc", b"\0\0\r\n" + _pyc[4:]),
    "pyc-oldmagic": (".pyc", struct.pack("<H", 3413) + b"\r\n" + _pyc[4:]),
    "pyc-trunc": (".pyc", _pyc[:30]),
    "pyc-short": (".pyc", _pyc[:10]),
    "pyc-header": (".pyc", _pyc[:16]),
    "pyc-empty": (".pyc", b""),
    "pyc-flags": (".pyc", MAGIC + struct.pack("<I", 0xff) + _pyc[8:]),
    "pyc-hash": (".pyc", MAGIC + struct.pack("<I", 3) + b"12345678" + _code),
    "pyc-int": (".pyc", _pyc[:16] + marshal.dumps(3)),
    "pyc-garbage": (".pyc", _pyc[:16] + b"\xff\xff\xff"),
    "so-empty": (SOABI, b""),
}

#: what the code of a package does when it is imported to find a submodule; True: the submodule is found
BEHAVE = {
    "ok": ("", True),
    "exception": ("raise Exception('x')", True),
    "no-message": ("raise ValueError", True),
    "empty-args": ("e = AttributeError()\ne.args = ()\nraise e", True),
    "spec-value": ("raise ValueError('__spec__ is not set')", True),
    "path-attr": ("raise AttributeError('x has no attribute \\'__path__\\'')", True),
    "path-module": ("import sys\nsys.__path__", True),
    "path-import": ("import sys.path", True),
    "notfound-self": ("raise ModuleNotFoundError('x', name=__name__)", True),
    "notfound-sub": ("raise ModuleNotFoundError('x', name=__name__ + '.s')", True),
    "zerodiv": ("1/0", True),
    "import-missing": ("import zz9", True),
    "import-name": ("from sys import zz9", True),
    "exit": ("import sys\nsys.exit(3)", True),
    "exit0": ("raise SystemExit", True),
    "recursion": ("def f(): f()\nf()", True),
    "memory": ("raise MemoryError", True),
    "stopiter": ("next(iter([]))", True),
    "assert": ("assert False", True),
    "unicode": ("b'\\xff'.decode('utf-8')", True),
    "oserror": ("open('/nonexistent/x')", True),
    "warn": ("import sys\nsys.modules['warnings'].warn('x')", True),
    "badrepr": ("class E(Exception):\n  def __str__(self): raise TypeError\n  __repr__ = __str__\nraise E", True),
    "group": ("raise ExceptionGroup('x', [ValueError()])", True),
    "drop-self": ("import sys\ndel sys.modules[__name__]", None),
    "none-self": ("import sys\nsys.modules[__name__] = None", None),
    "object-self": ("import sys\nsys.modules[__name__] = object()", None),
    "string-self": ("import sys\nsys.modules[__name__] = 'x'", None),
    "other-self": ("import sys\nsys.modules[__name__] = sys", None),
    "raising-self": ("import sys\nclass X:\n  def __getattr__(self, n): raise RuntimeError(n)\nsys.modules[__name__] = X()", None),
    "lazy-self": ("import sys\nclass X(type(sys)):\n  def __getattr__(self, n): return 1\nsys.modules[__name__] = X(__name__)", None),
    "path-none": ("__path__ = None", None),
    "path-empty": ("__path__ = []", None),
    "path-str": ("__path__ = 'x'", None),
    "path-int": ("__path__ = [1, None]", None),
    "path-del": ("del __path__", None),
    "spec-none": ("__spec__ = None", None),
    "spec-del": ("del __spec__", None),
    "spec-str": ("__spec__ = 'x'", None),
    "name": ("__name__ = 'other'", True),
    "loader": ("__loader__ = None", True),
    "sub-none": ("import sys\nsys.modules[__name__ + '.s'] = None", None),
    "sub-object": ("import sys\nsys.modules[__name__ + '.s'] = object()", None),
    "sub-nospec": ("import sys\nsys.modules[__name__ + '.s'] = type(sys)(__name__ + '.s')", None),
    "sub-other": ("import sys\nsys.modules[__name__ + '.s'] = sys", None),
    "sub-self": ("import sys\nsys.modules[__name__ + '.s'] = sys.modules[__name__]", None),
    "sub-import": ("from . import s", True),
    "sub-raise": ("from . import s\nraise Exception", True),
    "sub-attr": ("s = 1", True),
    "getattr": ("def __getattr__(n): raise RuntimeError(n)", True),
    "getattr1": ("def __getattr__(n): return 1", True),
    "all": ("__all__ = ['s', 'zz', 1]", True),
    "exec": ("exec('import zz8')", True),
    "chdir": ("import sys\nsys.modules['os'].chdir('/')", True),
    "caches": ("import sys\nsys.path_importer_cache.clear()", True),
    "metapath": ("import sys\nclass F:\n  @staticmethod\n  def find_spec(n, p=None, t=None):\n    if n.endswith('.s'): raise OSError\nsys.meta_path.insert(0, F)", None),
    "loop": ("import u", True),
}

#: end of the code of explicit namespace packages, which are imported to find their search path
EXPLICIT = {
    "pkgutil": "__path__ = __path__  # pkgutil\n",
    "resources": "def f(): declare_namespace, pkg_resources\n",
    "dunder": "def f(): return __import__('pkg_resources')\n",
}

IMPORTS = {
    "import": "import t",
    "import-sub": "import t.s",
    "from": "from t import s",
    "from2": "from t import zz7, s",
    "star": "from t import *",
    "from-sub": "from t.s import v",
    "sub-sub": "import t.s.x",
    "try": "try:\n    import t.s\nexcept:\n    import t",
}


_valid = {}


def valid(name):
    """Does CPython accept this file?"""
    if name not in _valid:
        sfx, data = CONTENT[name]
        if sfx == ".py":
            try:
                compile(data, "x.py", "exec", dont_inherit=True)
                _valid[name] = True
            except (SyntaxError, ValueError, MemoryError, RecursionError, LookupError):
                _valid[name] = False
        elif sfx == ".pyc":
            _valid[name] = name in ("pyc", "pyc-hash")
        else:
            _valid[name] = True
    return _valid[name]


KIND = {".py": "SourceModule", ".pyc": "BytecodeModule", SOABI: "ExtensionModule"}


def kind(name):
    return KIND[CONTENT[name][0]] if valid(name) else "InvalidModule"


def BOUND(tier):
    n = 3 if tier == "quick" else 4
    return (
        f"{len(CONTENT)} kinds of file content (encodings, syntax and compile errors, corrupt byte code, excessive nesting) as "
        f"top-level module, package __init__ and submodule, all pairs of __init__ and submodule content, x {len(IMPORTS)} import forms, in a directory and in a zip "
        f"file; {len(BEHAVE)} things that package code does when it is imported x {len(IMPORTS)} import forms x containers x explicit namespace packages; files "
        "that are not what their name suggests (directories, dangling and circular symbolic links); all import graphs over "
        f"{n} modules (every digraph, with import and from-import) terminate with exactly the reachable modules"
    )


ODD = {
    "dir": "t.py/", "dirpyc": "t.pyc/", "dirso": f"t{SOABI}/", "dirinit": "t/__init__.py/", "dangling": None, "loop": None,
    "dirloop": None, "fifo": None, "unreadable": None,
}


#: slow to compile: not used in pairs by the quick check
HEAVY = ("elif2500", "plus2500", "attr2500", "call2500", "lambda2500", "tern2500", "minus", "plus", "elif", "elif8000", "nest", "parens", "parens300", "bigint")


def cases(tier):
    for c, imp in product(CONTENT, IMPORTS):
        for box in ("dir", "zip"):
            if CONTENT[c][0] == SOABI and box == "zip":
                continue
            yield {"top": c, "import": imp, "box": box}
    for c1, c2 in product(CONTENT, repeat=2):
        for box in ("dir", "zip"):
            if SOABI in (CONTENT[c1][0], CONTENT[c2][0]) and box == "zip":
                continue
            if tier == "quick" and (c1 in HEAVY and c2 != "ok" or c2 in HEAVY and c1 != "ok"):
                continue
            for imp in IMPORTS if tier == "thorough" else ("from", "import-sub", "from2"):
                yield {"init": c1, "sub": c2, "import": imp, "box": box}
    for b, imp in product(BEHAVE, IMPORTS):
        for box in ("dir", "zip"):
            for c2 in ("ok", "syntax", "pyc") if tier == "quick" else CONTENT:
                if CONTENT[c2][0] == SOABI and box == "zip":
                    continue
                yield {"behave": b, "sub": c2, "import": imp, "box": box}
    for b, imp in product(BEHAVE, IMPORTS):
        for box in ("dir", "zip"):
            for ex in EXPLICIT:
                yield {"behave": b, "explicit": ex, "sub": "ok", "import": imp, "box": box}
    for odd, imp in product(ODD, IMPORTS):
        yield {"odd": odd, "import": imp}
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        pairs = list(product(range(n), repeat=2))
        for mask in range(1 << len(pairs)):
            yield {"digraph": n, "mask": mask, "form": "import"}
            if n < 4:
                yield {"digraph": n, "mask": mask, "form": "from"}
                yield {"digraph": n, "mask": mask, "form": "pkg"}


def root_source(imp):
    return f"import z1\n{IMPORTS[imp]}\nimport z2\n"


def run_case(case, env):
    res = Result()
    if "digraph" in case:
        return digraph(case, env, res)
    files = {}
    odd = case.get("odd")
    if "top" in case:
        sfx, data = CONTENT[case["top"]]
        files["t" + sfx] = data
    elif odd is None:
        if "init" in case:
            sfx, data = CONTENT[case["init"]]
        else:
            sfx, data = ".py", ("import q1\n" + BEHAVE[case["behave"]][0] + "\n" + EXPLICIT.get(case.get("explicit"), "")).encode()
        files["t/__init__" + sfx] = data
        sfx, data = CONTENT[case["sub"]]
        files["t/s" + sfx] = data.replace(b"q1", b"q2")
    box = case.get("box", "dir")
    with env.case(chdir=True, subdirs=["", "x.zip"] if box == "zip" else [""]) as d:
        write_tree(d, {"r.py": root_source(case["import"]), "u.py": "import t\nimport q3\n", "q1.py": "", "q2.py": "", "q3.py": ""})
        if box == "zip":
            write_tree(d + "/src", files)
            zip_tree(d + "/src", d + "/x.zip")
        else:
            write_tree(d, files)
        if odd:
            make_odd(d, odd)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mg = new_graph()
            if "explicit" in case:
                mg.add_excludes(["pkgutil", "pkg_resources"])
            mg.add_module("r")
        reach = reachable(mg)
        got = {n.identifier: n for n in mg.nodes() if n.identifier in reach}
        for z in ("z1", "z2"):
            expect(z in got and type(got[z]).__name__ == "MissingModule", f"import of {z!r} next to the module is not in the graph")
        expect("t" in got, "t is not in the graph")
        want_t = want_s = None
        tk = type(got["t"]).__name__
        if "top" in case:
            want_t = kind(case["top"])
            if valid(case["top"]) and b"q1" in CONTENT[case["top"]][1]:
                want_edge(mg, "t", "q1")
        elif odd is None:
            want_t = "Package"
            imp = case["import"]
            if imp not in ("import", "star"):
                want_s = kind(case["sub"])
                if "behave" in case and BEHAVE[case["behave"]][1] is None:
                    want_s = None
            if tk == "Package" and "init" in case:
                ik = type(got["t"].init_module).__name__
                expect(ik == kind(case["init"]), f"__init__ is a {ik}, should be {kind(case['init'])}")
                if valid(case["init"]) and b"q1" in CONTENT[case["init"]][1]:
                    want_edge(mg, "t", "q1")
            if "behave" in case:
                want_edge(mg, "t", "q1")
            if want_s and valid(case["sub"]) and b"q1" in CONTENT[case["sub"]][1]:
                want_edge(mg, "t.s", "q2")
            if case.get("behave") == "loop":
                want_edge(mg, "u", "q3")
        if want_t:
            expect(tk == want_t, f"t is a {tk}, should be {want_t}")
        if want_s:
            expect(cls(mg, "t.s") == want_s and "t.s" in reach, f"t.s is a {cls(mg, 't.s')}, should be {want_s}")
        res.step(len(got))
        # a second graph in the same process sees the same
        if odd is None and box == "dir" and case.get("top") not in HEAVY and (BEHAVE[case["behave"]][1] if "behave" in case else True):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                again = new_graph()
                if "explicit" in case:
                    again.add_excludes(["pkgutil", "pkg_resources"])
                again.add_module("r")
            expect(canon(again, d) == canon(mg, d), "building the graph again gives another result")
        res.state(canon(mg, d))
        res.outcome = [tk, cls(mg, "t.s")]
    return res


def want_edge(mg, src, dst):
    try:
        mg.edge_data(src, dst)
    except KeyError:
        expect(False, f"no edge from {src!r} to {dst!r}")


def make_odd(d, odd):
    import os

    if ODD[odd] is not None:
        os.makedirs(os.path.join(d, ODD[odd]))
    elif odd == "dangling":
        os.symlink(d + "/nowhere.py", d + "/t.py")
    elif odd == "loop":
        os.symlink(d + "/t.py", d + "/t.py")
    elif odd == "dirloop":
        os.mkdir(d + "/t")
        write_tree(d, {"t/__init__.py": "", "t/s.py": ""})
        os.symlink(d + "/t", d + "/t/t")
    elif odd == "fifo":
        os.mkdir(d + "/t")
        write_tree(d, {"t/__init__.py": "import q1\n", "t/s.py": ""})
        os.mkfifo(d + "/t/x.txt")
    elif odd == "unreadable":
        write_tree(d, {"t/__init__.py": "import q1\n", "t/s.py": ""})
        os.chmod(d + "/t/s.py", 0)


def digraph(case, env, res):
    n, mask, form = case["digraph"], case["mask"], case["form"]
    pairs = list(product(range(n), repeat=2))
    succ = {i: [] for i in range(n)}
    for k, (i, j) in enumerate(pairs):
        if mask >> k & 1:
            succ[i].append(j)
    names = [f"m{i}" for i in range(n)]
    if form == "pkg":
        names = ["m0" + ".p" * i for i in range(n)]
    files = {}
    for i in range(n):
        text = ""
        for j in succ[i]:
            text += f"from {names[j]} import v{i}, v{j}\n" if form != "import" else f"import {names[j]}\n"
        text += f"v{i} = 1\n"
        fn = names[i].replace(".", "/")
        files[fn + ("/__init__.py" if form == "pkg" else ".py")] = text
    todo, seen = [0], {0}
    while todo:
        i = todo.pop()
        # using a package uses its parents
        for j in succ[i] + (list(range(i)) if form == "pkg" else []):
            if j not in seen:
                seen.add(j)
                todo.append(j)
    with env.case() as d:
        write_tree(d, files)
        mg = new_graph()
        mg.add_module(names[0])
        reach = reachable(mg)
        kinds = {x: cls(mg, x) for x in reach}
        want = {names[i]: "Package" if form == "pkg" else "SourceModule" for i in seen}
        if form == "pkg":
            kinds = {x: k for x, k in kinds.items() if k != "MissingModule"}
        expect(kinds == want, f"reachable modules are {kinds}, should be {want}")
        for i in seen:
            for j in succ[i]:
                have = {tuple(depinfo(x)) for x in mg.edge_data(names[i], names[j])}
                expect((False, True, False, None) in have, f"edge {names[i]} -> {names[j]} has attributes {have}")
        res.step(len(reach))
        res.state(canon(mg, d))
    res.outcome = ["digraph", n, len(seen)]
    return res
