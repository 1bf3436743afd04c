"""
Project DSL, graph canonicalisation and the independent reference helpers.

A *project* is a mapping {relative path: content}; content is either a str
(source text), bytes, or a list of statements in the DSL below.

Statements (JSON-able):
  ["import", "a.b", asname|None]
  ["from", level, "mod", [[name, asname|None], ...]]
  ["star", level, "mod"]
  ["assign", name]
  ["raise", exception-expression]
  ["code", text]
"""

import os
import sys
import zipfile
import py_compile
import importlib

from .core import Violation, expect, expect_eq, show  # noqa: F401


def render_stmt(st, ind=""):
    k = st[0]
    if k == "import":
        _, mod, asname = st
        return f"{ind}import {mod}" + (f" as {asname}" if asname else "")
    if k == "from":
        _, level, mod, names = st
        nl = ", ".join(n if not a else f"{n} as {a}" for n, a in names)
        return f"{ind}from {'.' * level}{mod} import {nl}"
    if k == "star":
        _, level, mod = st
        return f"{ind}from {'.' * level}{mod} import *"
    if k == "assign":
        return f"{ind}{st[1]} = 1"
    if k == "raise":
        return f"{ind}raise {st[1]}"
    if k == "code":
        return "\n".join(ind + ln for ln in st[1].split("\n"))
    raise AssertionError(k)


def render(stmts, ind=""):
    return "".join(render_stmt(s, ind) + "\n" for s in stmts)


def content_bytes(content):
    if isinstance(content, (bytes, bytearray)):
        return bytes(content)
    if isinstance(content, list):
        content = render(content)
    return content.encode("utf-8")


def write_tree(root, files):
    for rel, content in files.items():
        path = os.path.join(root, rel)
        if rel.endswith("/"):
            os.makedirs(path, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as fp:
            fp.write(content_bytes(content))


def compile_tree(root, remove_source=True):
    """Replace all .py files below *root* by legacy-layout .pyc files"""
    for dirpath, dirnames, filenames in os.walk(root):
        for fn in filenames:
            if fn.endswith(".py"):
                p = os.path.join(dirpath, fn)
                py_compile.compile(
                    p, p + "c", doraise=True,
                    invalidation_mode=py_compile.PycInvalidationMode.UNCHECKED_HASH,
                )
                if remove_source:
                    os.unlink(p)


def zip_tree(root, zippath, dirs=False):
    with zipfile.ZipFile(zippath, "w") as zf:
        for dirpath, dirnames, filenames in sorted(os.walk(root)):
            rel = os.path.relpath(dirpath, root)
            if dirs and rel != ".":
                zf.writestr(rel.replace(os.sep, "/") + "/", b"")
            for fn in sorted(filenames):
                p = os.path.join(dirpath, fn)
                if os.path.abspath(p) == os.path.abspath(zippath):
                    continue
                zf.write(p, os.path.relpath(p, root))


# ------------------------------------------------------------------ graph


def depinfo(d):
    return [bool(d.is_optional), bool(d.is_global), bool(d.in_fromlist),
            None if d.imported_as is None else str(d.imported_as)]


def canon_node(n, root=None):
    fn = getattr(n, "filename", None)
    if fn is not None:
        fn = str(fn)
        if root is not None and fn.startswith(root):
            fn = "$" + fn[len(root):]
    rec = {"class": type(n).__name__, "file": fn}
    am = getattr(n, "actual_module", None)
    if am is not None:
        rec["actual"] = str(am)
    pm = getattr(n, "providing_module", None)
    if pm is not None:
        rec["provider"] = str(pm)
    sp = getattr(n, "search_path", None)
    if sp is not None:
        rec["path"] = [
            ("$" + str(p)[len(root):]) if root and str(p).startswith(root) else str(p)
            for p in sp
        ]
    return rec


def _name(ident, root):
    ident = str(ident)
    if root is not None and root in ident:
        ident = ident.replace(root, "$")
    return ident


def canon(mg, root=None):
    """Canonical JSON-able form of the complete graph (not only reachable)"""
    nodes = {_name(n.identifier, root): canon_node(n, root) for n in mg.nodes()}
    edges = {}
    for src, dst, data in mg.edges():
        edges[f"{_name(src.identifier, root)} -> {_name(dst.identifier, root)}"] = sorted(
            (depinfo(d) for d in data), key=repr
        )
    roots = sorted(_name(r.identifier, root) for r in mg.roots())
    return {"nodes": nodes, "edges": edges, "roots": roots}


def reachable(mg):
    """Reachable node ids, computed independently of iter_graph"""
    succ = {}
    for src, dst, data in mg.edges():
        if data:
            succ.setdefault(src.identifier, set()).add(dst.identifier)
    todo = [r.identifier for r in mg.roots()]
    seen = set(todo)
    while todo:
        x = todo.pop()
        for y in succ.get(x, ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def diff_canon(a, b):
    out = []
    for part in ("nodes", "edges"):
        for k in sorted(set(a[part]) | set(b[part])):
            if a[part].get(k) != b[part].get(k):
                out.append(f"{part[:-1]} {k}: {a[part].get(k)} vs {b[part].get(k)}")
    if a["roots"] != b["roots"]:
        out.append(f"roots {a['roots']} vs {b['roots']}")
    return "; ".join(out)


def new_graph(**kw):
    import modulegraph2

    return modulegraph2.ModuleGraph(**kw)


def edge_infos(mg, src, dst):
    """Edge attributes as a set of tuples, or None when there is no edge"""
    try:
        return {tuple(depinfo(d)) for d in mg.edge_data(src, dst)}
    except KeyError:
        return None


def cls(mg, name):
    n = mg.find_node(name)
    return None if n is None else type(n).__name__


# --------------------------------------------------- reference: name resolution


def parents(name):
    """'a.b.c' -> ['a', 'a.b']"""
    parts = name.split(".")
    return [".".join(parts[:i]) for i in range(1, len(parts))]


def resolve_relative(package, level, mod):
    """
    PEP 328 resolution, written independently: *package* is the package of the
    importing module ('' for a toplevel module or script).  None: beyond toplevel.
    """
    if level == 0:
        return mod
    if not package:
        return None
    bits = package.split(".")
    if level - 1 >= len(bits):
        return None
    base = bits[: len(bits) - (level - 1)]
    return ".".join(base + ([mod] if mod else []))


def modname(rel):
    """'p/q/__init__.py' -> ('p.q', True); 'p/m.py' -> ('p.m', False)"""
    stem = rel.rsplit(".", 1)[0]
    parts = stem.split("/")
    if parts[-1] == "__init__":
        return ".".join(parts[:-1]), True
    return ".".join(parts), False
