"""
C18: has_data_files of packages.
"""
import importlib.machinery
import os
import py_compile
from itertools import combinations, product

from ..core import Result, expect, expect_eq
from ..util import canon, new_graph, write_tree, zip_tree

PROPERTY = "C18"
TITLE = "has_data_files tells exactly whether there are data files in a package"
ASSUMPTIONS = ["a file is a data file unless its name has a suffix of a Python module or it is in a __pycache__, .hg or .svn directory"]

SUFFIXES = tuple(importlib.machinery.all_suffixes())
SO = importlib.machinery.EXTENSION_SUFFIXES[0]
IGNORED = {"__pycache__", ".hg", ".svn"}

ENTRIES = [
    "d.txt", "s.py", "e" + SO, "f.so", "c.pyc", "__pycache__/s.cpython-312.pyc", "__pycache__/z.txt", ".hg/x", ".svn/sub/x", "a/",
    "a/d.txt", "a/s.py", "a/b/d.txt", "a/b/s.py", "a/__pycache__/x.txt", "b/", "b/d", "b/s.py", "z/a/", "z/d.txt",
    "q/__init__.py", "q/d.txt", "q/r/s.py", "t.py/d.txt", "u.py/", "s.pyi", "py", "x.PY", ".hidden", "hg/x", "w.pyw", ".py",
    "pycache__/x", "a/.svn/x", "a/hg.txt", "n.txt.py",
]
#: more than what is in the directory of p
OUTSIDE = ["d.txt", "pp/d.txt", "p2/__init__.py", "p.txt", "q/d.txt", "o/p/d.txt"]
LINKS = ["dir", "file", "loop", "self", "parent", "dangling", "dir-empty", "mutual", "wide"]


def BOUND(tier):
    n = 3 if tier == "quick" else 4
    return (
        f"all sets of up to {n} of {len(ENTRIES)} kinds of files and directories (modules, data, ignored and empty directories, subpackages, odd names) in a package, in a directory "
        "(2 listing orders), a zip file, a zip file with directory entries and a directory in a zip file; all pairs with files outside of the package; "
        f"package __init__ kinds; {len(LINKS)} kinds of symbolic links; unreadable directories; state = the answer for the tree"
    )


def cases(tier):
    for n in (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4):
        for sub in combinations(range(len(ENTRIES)), n):
            boxes = ["dir", "dir-rev", "zip", "zipdirs", "zipsub"] if n < 3 or tier == "thorough" and n < 4 else ["dir", "zip"]
            for box in boxes:
                yield {"tree": list(sub), "box": box}
    for k, o, box in product(range(len(ENTRIES)), OUTSIDE, ("dir", "zip", "zipdirs", "zipsub")):
        yield {"tree": [k], "outside": o, "box": box}
    for init in ("pyc", "invalid", "so"):
        for k, box in product(range(len(ENTRIES)), ("dir", "zip")):
            if init != "so" or box == "dir":
                yield {"tree": [k], "init": init, "box": box}
    for link in LINKS:
        for k in range(len(ENTRIES)):
            yield {"tree": [k], "link": link, "box": "dir"}
    for k, bad in product(range(len(ENTRIES)), ("p", "a", "b", "q")):
        yield {"tree": [k], "unreadable": bad, "box": "dir"}


def has_data(files):
    """files: relative to the package"""
    for f in files:
        parts = f.split("/")
        if f.endswith("/") or IGNORED & set(parts):
            continue
        if not parts[-1].endswith(SUFFIXES):
            return True
    return False


def make_link(d, link):
    """Returns what is in the package because of it"""
    p = d + "/p"
    if link == "dir":
        write_tree(d, {"else/x.txt": ""})
        os.symlink(d + "/else", p + "/lnk")
        return ["lnk/x.txt"]
    if link == "dir-empty":
        write_tree(d, {"else/x.py": ""})
        os.symlink("../else", p + "/lnk")
    elif link == "file":
        write_tree(d, {"x.py": ""})
        os.symlink(d + "/x.py", p + "/y.py")
    elif link == "loop":
        os.symlink(p + "/l1", p + "/l1.py")
        os.symlink(p + "/l1.py", p + "/l1")
        return None
    elif link == "self":
        os.symlink(p, p + "/lnk")
    elif link == "parent":
        write_tree(d, {"p/n/m/x.py": ""})
        os.symlink("../..", p + "/n/m/up")
    elif link == "dangling":
        os.symlink("nowhere", p + "/gone.py")
    elif link == "mutual":
        write_tree(d, {"p/l1/x.py": "", "p/l2/y.py": ""})
        os.symlink("../l2", p + "/l1/other")
        os.symlink("../l1", p + "/l2/other")
    elif link == "wide":
        for i in range(8):
            os.mkdir(f"{p}/w{i}")
            for j in range(8):
                os.symlink(f"../w{j}", f"{p}/w{i}/l{j}")
    return []


def run_case(case, env):
    res = Result()
    tree = [ENTRIES[k] for k in case["tree"]]
    box, init = case["box"], case.get("init")
    real = os.listdir
    sub = {"dir": "", "dir-rev": "", "zip": "x.zip", "zipdirs": "x.zip", "zipsub": "x.zip/lib"}[box]
    with env.case(subdirs=[sub] if sub else [""]) as d:
        files = {"p/" + f: "" for f in tree}
        if init is None:
            files["p/__init__.py"] = ""
        elif init == "invalid":
            files["p/__init__.py"] = "if if\n"
        elif init == "so":
            files["p/__init__" + SO] = ""
        out = case.get("outside")
        if out:
            files[out] = ""
        base = d if box.startswith("dir") else d + "/src/lib" if box == "zipsub" else d + "/src"
        write_tree(base, files)
        if init == "pyc":
            write_tree(d, {"tmp/i.py": ""})
            py_compile.compile(d + "/tmp/i.py", base + "/p/__init__.pyc", doraise=True)
        if box.startswith("zip"):
            zip_tree(d + "/src", d + "/x.zip", dirs=box == "zipdirs")
        want = has_data(tree)
        if "link" in case:
            more = make_link(d, case["link"])
            want = None if more is None else has_data(tree + more)
        bad = case.get("unreadable")
        try:
            if box == "dir-rev":
                os.listdir = lambda path=".": sorted(real(path), reverse=True)
            elif bad:
                want = has_data([f for f in tree if bad != "p" and not f.startswith(bad + "/")])
                os.listdir = lambda path=".": deny(path, d + "/p" if bad == "p" else d + "/p/" + bad, real)
            mg = new_graph()
            mg.add_module("p")
            if "q/__init__.py" in tree:
                mg.add_module("p.q")
        finally:
            os.listdir = real
        node = mg.find_node("p")
        if bad and type(node).__name__ in ("MissingModule", "NamespacePackage"):
            res.outcome = ["not found"]
            return res
        expect_eq(type(node).__name__, "Package", "p")
        if want is not None:
            expect_eq(node.has_data_files, want, f"has_data_files of a package with {tree}")
        if "q/__init__.py" in tree and not bad:
            q = mg.find_node("p.q")
            expect_eq(type(q).__name__, "Package", "p.q")
            expect_eq(q.has_data_files, has_data([f[2:] for f in tree if f.startswith("q/")]), "has_data_files of p.q")
        res.step()
        res.state([sorted(tree), box, node.has_data_files, out])
        res.outcome = [box, node.has_data_files]
    return res


def deny(path, bad, real):
    if os.path.abspath(os.fspath(path)) == bad:
        raise PermissionError(13, "Permission denied", bad)
    return real(path)
