"""
C07: module resolution agrees with the interpreter for every search path layout.
"""
import importlib
import importlib.machinery as M
import importlib.util
import os
import sys
import zipfile
import zipimport
from itertools import product

from ..core import Result, expect, expect_eq
from ..util import write_tree, new_graph, canon, cls, zip_tree, edge_infos

PROPERTY = "C07"
TITLE = "module resolution agrees with the interpreter"
ASSUMPTIONS = ["extension modules are files with the right suffix (empty, they cannot be imported)"]

PY = ["", "v", "x"]  # absent, valid, syntax error
DIR = ["", "ns", "py", "pyc", "so", "bad", "pkgutil", "raise", "exit", "py+pyc+so"]
SOABI = M.EXTENSION_SUFFIXES[0]
KINDS = ["dir+dir", "zip+dir", "dir+zip", "rel+dir", "zip+zip"]


def BOUND(tier):
    return (
        "two search path entries (directory, relative directory, zip file), each with any combination of t.py (absent, "
        f"valid, syntax error), t.pyc, t{SOABI} and a directory t ({len(DIR)} kinds: namespace, "
        "source/byte code/extension/invalid/raising/pkgutil/mixed __init__) holding a common and a private submodule; "
        + ("one entry of every layout x layouts with one or two of these" if tier == "quick" else "all pairs of layouts")
        + "; plus every stdlib module and path entries that shadow built-in, frozen and stdlib modules; "
        "oracle: importlib's own PathFinder; state = canonical graph"
    )


def layouts():
    return sorted(product(PY, ["", "pyc"], ["", "so"], DIR), key=lambda x: sum(1 for y in x if y))


def cases(tier):
    ls = layouts()
    small = [x for x in ls if sum(1 for y in x if y) <= (1 if tier == "quick" else 4)]
    for nm in sorted(sys.stdlib_module_names):
        yield {"stdlib": nm}
    for nm in ("sys", "zipimport", "_io", "json", "__hello__", "__phello__", "_thread", "os.path", "__phello__.spam"):
        for lay in ls[:30]:
            yield {"shadow": nm, "layout": lay}
    for kind in KINDS:
        for a in ls:
            for b in small:
                for order in (["t"], ["t.common"]):
                    yield {"kind": kind, "layouts": [a, b], "order": order + ["t.only2", "t.only1", "t.none", "t.common.x"]}


PYC = importlib.util.MAGIC_NUMBER + b"\0" * 12


def pyc(src):
    import marshal

    return PYC + marshal.dumps(compile(src, "x", "exec"))


def files_for(name, lay, idx):
    py, hpyc, so, d = lay
    out = {}
    if py:
        out[f"{name}.py"] = "v = 1\n" if py == "v" else "def 1\n"
    if hpyc:
        out[f"{name}.pyc"] = pyc("v = 2\n")
    if so:
        out[f"{name}{SOABI}"] = b""
    if d:
        out[f"{name}/common.py"] = "v = 3\n"
        out[f"{name}/only{idx}.py"] = "v = 3\n"
        if "py" in d.split("+"):
            out[f"{name}/__init__.py"] = "v = 4\n"
        if "pyc" in d:
            out[f"{name}/__init__.pyc"] = pyc("v = 4\n")
        if "so" in d:
            out[f"{name}/__init__{SOABI}"] = b""
        if d == "bad":
            out[f"{name}/__init__.py"] = "def 1\n"
        if d == "raise":
            out[f"{name}/__init__.py"] = "raise RuntimeError('no')\n"
        if d == "exit":
            out[f"{name}/__init__.py"] = "import sys\nsys.exit('not supported')\n"
        if d == "pkgutil":
            out[f"{name}/__init__.py"] = "__path__ = __import__('pkgutil').extend_path(__path__, __name__)\n"
    return out


def oracle(name):
    """(class, init class, filename, search path) according to importlib; does not import anything"""
    path = None
    spec = None
    parts = name.split(".")
    for i in range(1, len(parts) + 1):
        nm = ".".join(parts[:i])
        if i > 1:
            if spec.submodule_search_locations is None:
                return ("MissingModule", None, None, None)
            path = spec.submodule_search_locations
            if is_pkgutil(spec):
                path = extended(spec)
        spec = None
        for finder in (M.BuiltinImporter, M.FrozenImporter, M.PathFinder):
            try:
                spec = finder.find_spec(nm, path)
            except SyntaxError:
                # zipimporter compiles the module to find its filename
                spec = invalid_in_zip(nm, sys.path if path is None else path)
            if spec is not None:
                break
        if spec is None:
            return ("MissingModule", None, None, None)
    loader = spec.loader
    locs = spec.submodule_search_locations
    if loader is None or type(loader).__name__ in ("NamespaceLoader", "_NamespaceLoader"):
        return ("NamespacePackage", None, None, [str(p) for p in locs])
    filename = spec.origin
    if loader is M.BuiltinImporter:
        kind, filename = "BuiltinModule", None
    elif loader is M.FrozenImporter:
        kind, filename = "FrozenModule", None
    elif isinstance(loader, M.ExtensionFileLoader):
        kind = "ExtensionModule"
    elif spec.origin.endswith(".pyc"):
        kind = "BytecodeModule"
    else:
        kind = "SourceModule"
        try:
            src = loader.get_data(spec.origin)
            compile(importlib.util.decode_source(src), "x", "exec", dont_inherit=True)
        except SyntaxError:
            kind = "InvalidModule"
    if locs is None:
        return (kind, None, filename, None)
    if is_pkgutil(spec):
        locs = extended(spec)
    return ("FrozenPackage" if kind == "FrozenModule" else "Package", kind,
            os.path.dirname(filename) if filename else None, [str(p) for p in locs])


def invalid_in_zip(name, path):
    tail = name.rpartition(".")[2]
    for entry in path:
        archive, sep, prefix = entry.partition(".zip")
        if not sep:
            continue
        archive += sep
        with zipfile.ZipFile(archive) as zf:
            names = zf.namelist()
        prefix = prefix.lstrip("/") + "/" if prefix else ""
        for sfx in ("/__init__.py", ".py"):
            if prefix + tail + sfx in names:
                loader = zipimport.zipimporter(entry)
                spec = M.ModuleSpec(name, loader, origin=f"{archive}/{prefix}{tail}{sfx}", is_package="init" in sfx)
                if "init" in sfx:
                    spec.submodule_search_locations.append(f"{archive}/{prefix}{tail}")
                return spec
    raise AssertionError(name)


def is_pkgutil(spec):
    if not spec.origin or not spec.origin.endswith("__init__.py"):
        return False
    try:
        return b"pkgutil" in spec.loader.get_data(spec.origin) and "mgmc-" in spec.origin
    except OSError:
        return False


def extended(spec):
    import pkgutil

    locs = list(spec.submodule_search_locations)
    try:
        return pkgutil.extend_path(locs, spec.name)
    except SyntaxError:  # broken module in a zipfile: the package cannot be imported
        return locs


def check_node(mg, name, alias_ok=False):
    want = oracle(name)
    n = mg.find_node(name)
    expect(n is not None, f"{name!r} is not in the graph")
    if alias_ok and type(n).__name__ == "AliasNode":
        return "AliasNode"
    got_kind = type(n).__name__
    expect_eq(got_kind, want[0], f"class of {name!r}")
    init = getattr(n, "init_module", None)
    expect_eq(type(init).__name__ if init is not None else None, want[1], f"class of the __init__ of {name!r}")
    fn = n.filename
    if want[0] != "NamespacePackage":
        expect_eq(None if fn is None else str(fn), want[2], f"filename of {name!r}")
    sp = getattr(n, "search_path", None)
    expect_eq(None if sp is None else [str(p) for p in sp], want[3], f"search path of {name!r}")
    code = getattr(n if init is None else init, "code", None)
    if want[0] in ("SourceModule", "BytecodeModule") or want[1] in ("SourceModule", "BytecodeModule"):
        expect(code is not None and code.co_name == "<module>", f"{name!r} has no code")
    expect_eq(n.name, name, "name")
    return got_kind


def run_case(case, env):
    res = Result()
    if "stdlib" in case:
        with env.case() as root:
            name = case["stdlib"]
            mg = new_graph(use_stdlib_implies=False)
            mg.add_excludes(x for x in sys.stdlib_module_names if x != name)
            mg.add_module(name)
            k = check_node(mg, name)
            res.step()
            res.state(canon(mg, root))
        res.outcome = ["stdlib", k]
        return res
    if "shadow" in case:
        with env.case() as root:
            name = case["shadow"]
            top = name.split(".")[0]
            write_tree(root, files_for(top, case["layout"], 1))
            if top == "os" or name in ("json",):
                # already imported by the worker itself
                sys.modules.pop(top) if top == "json" else None
            mg = new_graph(use_stdlib_implies=False)
            mg.add_excludes(x for x in sys.stdlib_module_names if x != top)
            mg.add_module(name)
            k = check_node(mg, name, alias_ok=name == "os.path") if top != "os" else cls(mg, name)
            res.step()
            res.state([case["shadow"], canon(mg, root)])
        res.outcome = ["shadow", k]
        return res
    kind = case["kind"]
    # not in alphabetical order
    subdirs = ["z1" + (".zip" if kind.startswith("zip") else ""), "e2" + (".zip" if kind.endswith("zip") else "")]
    with env.case(subdirs=subdirs, chdir=True) as root:
        if kind.startswith("rel"):
            sys.path[0] = "z1"
        for i, (lay, sub) in enumerate(zip(case["layouts"], subdirs), 1):
            d = f"{root}/{sub.removesuffix('.zip')}"
            os.mkdir(d)
            write_tree(d, files_for("t", lay, i))
            if sub.endswith(".zip"):
                zip_tree(d, f"{root}/{sub}")
        mg = new_graph()
        mg.add_excludes(sys.stdlib_module_names)  # keep the dependencies of pkgutil out
        kinds = []
        for name in case["order"]:
            mg.add_module(name)
            kinds.append(check_node(mg, name))
            check_node(mg, "t")
            expect(name == "t" or edge_infos(mg, name, name.rpartition(".")[0]) == {(False, True, False, None)},
                   f"no edge from {name!r} to its package")
            res.step()
        t = mg.find_node("t")
        if type(t).__name__ == "Package":
            explicit = t.init_module.code is not None and "pkgutil" in str(t.init_module.code.co_consts) and \
                type(t.init_module).__name__ == "SourceModule"
            expect_eq(t.namespace_type, "pkgutil" if explicit else None, "namespace_type of 't'")
            expect_eq(edge_infos(mg, "t", "pkgutil") is not None, explicit, "edge from 't' to 'pkgutil'")
        res.state([case["layouts"], kinds])
    res.outcome = kinds
    return res
