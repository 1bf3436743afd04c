"""
API histories: a fixed program, an alphabet of API operations and an explicit
state model of what each of them does to the graph.

The model is a set-based transition system that knows nothing about the work
stack, the order of processing or the importlib machinery: a module is loaded
when it is named, which adds everything its statements name.  Conformance of
the implementation is checked after every transition.
"""

import os

from .core import expect
from .util import canon, depinfo, diff_canon, parents, reachable, write_tree

FILES = {
    "a.py": "import b\nfrom p import m, zz\nv = 1\nimport d as dd\n",
    "b.py": "import a as aa\nimport q.k\nfrom a import dd\n",
    "c.py": "import e.f\nif v:\n    import d\n",
    "d.py": "def f():\n    import zz.y\n",
    "g.py": "class K:\n    import c, zz\n    from ns import k as kk\ntry:\n    import b\nexcept ImportError:\n    import d\n",
    "p/__init__.py": "from .m import v\nfrom . import n\n",
    "p/m.py": "v = 1\nimport p.s.t\nfrom ..x import y\n",
    "p/n.py": "import c\nfrom .s import t as tt, v\n",
    "p/s/__init__.py": "v = 1\n",
    "p/s/t.py": "from .. import m as mm\n",
    "p/data.txt": "x",
    "ns/k.py": "from . import j\n",
    "ns/j.py": "from ...zz import y\n",
    "bp/__init__.py": "import b\nraise Exception\n",
    "bp/sub.py": "import d\nfrom . import other\n",
    "bp/other.py": "",
    "al/__init__.py": "import sys\nimport d\nsys.modules['al.x'] = d\n",
    "bad.py": "import a\nif if\n",
    "s.py": "import a\nfrom ns import k\nfrom .a import v\n",
    "t.py": "import d\nimport w\nimport bad\n",
    "u.py": "import g\n",
    "d1-1.0.dist-info/METADATA": "Metadata-Version: 2.1\nName: d1\nVersion: 1.0\n",
    "d1-1.0.dist-info/RECORD": "d.py,,\np/__init__.py,,\np/n.py,,\np/data.txt,,\n",
    "d2-1.0.dist-info/METADATA": "Metadata-Version: 2.1\nName: d2\nVersion: 1.0\n",
    "d2-1.0.dist-info/RECORD": "ns/k.py,,\n",
    "err.py": "import a\nx = = 1\n",
    "ret.py": "import c, x9\nreturn 1\n",
    "glob.py": "import c\ndef f():\n    import x8\n    x8 = 1\n    global x8\n",
    "enc.py": b"# coding: utf-8\nimport a\nx = '\xff'\n",
    "rot.py": b"# coding: rot13\nimport a\n",
    "null.py": b"import a\n\0\n",
    "nocod.py": b"# coding: no-such-codec\nimport a\n",
}

G = [False, True, False, None]  # plain module level import


def _f(asname=None, opt=False, glob=True):
    return [opt, glob, True, asname]


#: what the statements of a module name: (target, attributes)
EDGES = {
    "a": [("b", G), ("p", G), ("p.m", _f()), ("p.zz", _f()), ("d", [False, True, False, "dd"])],
    "b": [("a", [False, True, False, "aa"]), ("q.k", G), ("a", G), ("d", _f())],
    "c": [("e.f", G), ("d", [True, True, False, None])],
    "d": [("zz.y", [True, False, False, None])],
    "g": [("c", G), ("zz", G), ("ns", G), ("ns.k", _f("kk")), ("b", [True, True, False, None]),
          ("d", [True, True, False, None])],
    "p": [("p.m", G), ("p", G), ("p.n", _f())],
    "p.m": [("p.s.t", G), ("..x", G)],
    "p.n": [("c", G), ("p.s", G), ("p.s.t", _f("tt"), "p.s")],
    "p.s": [],
    "p.s.t": [("p", G), ("p.m", _f("mm"))],
    "ns.k": [("ns", G), ("ns.j", _f())],
    "ns.j": [("...zz", G)],
    "bp": [("b", G)],
    "bp.sub": [("d", G), ("bp", G), ("bp.other", _f())],
    "bp.other": [],
    "al": [("sys", G), ("d", G)],
    "al.x": [("d", G)],
    "$/s.py": [("a", G), ("ns", G), ("ns.k", _f()), (".a", G)],
    "$/t.py": [("d", G), ("w", G), ("bad", G)],
    "$/u.py": [("g", G)],
}
KIND = {
    "p": "Package", "p.s": "Package", "ns": "NamespacePackage", "bad": "InvalidModule",
    "bp": "Package", "al": "Package", "al.x": "AliasNode", "sys": "BuiltinModule",
}
for _n in ("a", "b", "c", "d", "g", "p.m", "p.n", "p.s.t", "ns.k", "ns.j", "bp.sub", "bp.other"):
    KIND[_n] = "SourceModule"
for _n in ("s", "t", "u"):
    KIND[f"$/{_n}.py"] = "Script"
SUBMODULES = {"p": ["m", "n", "s"], "p.s": ["t"]}
DISTS = {"d1": ["d", "p", "p.n"], "d2": ["ns.k"]}
SOURCE = "import e\nfrom p import m\nimport ns.k as kk\n"
EXCLUDES = ["b", "p.s", "zz"]
IMPLIES = {"c": ("d", "x2"), "e": "alias:p", "w": "virtual:a", "p.n": ("g",)}

#: the operations; names are stable because cases refer to them
OPS = {
    "a": ("module", "a"),
    "pm": ("module", "p.m"),
    "p": ("module", "p"),
    "zy": ("module", "zz.y"),
    "g": ("module", "g"),
    "s": ("script", "s.py"),
    "t": ("script", "t.py"),
    "D": ("dist", "d1"),
    "E": ("dist", "d2"),
    "x": ("excludes",),
    "i": ("implies",),
    "h": ("import", "c"),
    "k": ("package", "p"),
    "src": ("source",),
    "mh": ("missing_hook",),
    "ph": ("post_hook",),
    "b": ("module", "bad"),
    "bp": ("module", "bp.sub"),
    "al": ("module", "al.x"),
    "raw": ("raw", "g"),
}
#: operations that do not change the state that later operations depend on twice
CONFIG = ("x", "i", "mh", "ph")
#: finishes the work of operations outside of hooks
END = "-"
OPS_END = {END: ("end",)}


class Model:
    def __init__(self):
        self.nodes = {}
        self.edges = {}
        self.roots = set()
        self.excl = set()
        self.implied = {}
        self.mh = self.ph = False
        #: modules that were added outside of a hook, not processed yet
        self.pending = []

    def edge(self, src, dst, attr=G):
        self.edges.setdefault((src, dst), set()).add(tuple(attr))

    def load(self, name):
        if name in self.nodes:
            return self.nodes[name]
        todo = []
        if name.startswith("."):
            self.nodes[name] = "InvalidRelativeImport"
            return self.nodes[name]
        kind = KIND.get(name, "MissingModule")
        par = "" if "/" in name else name.rpartition(".")[0]
        if par:
            self.load(par)
            if name in self.nodes:
                # the package imports the submodule
                return self.nodes[name]
            if self.nodes[par] == "ExcludedModule":
                kind = "ExcludedModule"
            elif self.nodes[par] == "MissingModule":
                kind = "MissingModule"
        if name in self.excl:
            kind = "ExcludedModule"
        elif name in self.implied and kind != "ExcludedModule":
            imp = self.implied[name]
            if isinstance(imp, str):
                how, tgt = imp.split(":")
                kind = {"alias": "AliasNode", "virtual": "VirtualNode"}[how]
                todo.append((tgt, G))
            else:
                todo += [(tgt, G) for tgt in imp]
        if kind == "MissingModule" and self.mh and name == "zz":
            kind = "VirtualNode"
            todo.append(("d", G))
        self.nodes[name] = kind
        if par:
            self.edge(name, par)
        if name in EDGES and kind == KIND.get(name):
            todo += EDGES.get(name, [])
            # names are not looked for in an excluded package
            todo = [t for t in todo if len(t) == 2 or self.load(t[2]) != "ExcludedModule"]
        if self.ph and name == "p.m" and kind == "SourceModule":
            todo.append(("x3", G))
        for tgt, attr, *_ in todo:
            self.load(tgt)
            self.edge(name, tgt, attr)
        return kind

    def add(self, name):
        self.load(name)
        self.roots.add(name)

    def package(self, src, name):
        kind = self.load(name)
        self.edge(src, name)
        if kind == "Package":
            for sub in SUBMODULES[name]:
                full = f"{name}.{sub}"
                self.load(full)
                self.edge(name, full)
                if full in SUBMODULES:
                    self.package(name, full)

    def flush(self):
        for name in self.pending:
            for tgt, attr in EDGES[name]:
                self.load(tgt)
                self.edge(name, tgt, attr)
        self.pending = []

    def apply(self, op):
        what, *args = OPS.get(op) or OPS_END[op]
        err = self._apply(what, args)
        if what in ("module", "source", "end"):
            self.flush()
        return err

    def _apply(self, what, args):
        if what == "module":
            self.add(args[0])
        elif what == "script":
            if f"$/{args[0]}" in self.nodes:
                return "ValueError"
            self.add(f"$/{args[0]}")
            self.flush()
        elif what == "dist":
            ident = f"$/{args[0]}-1.0.dist-info"
            if ident not in self.nodes:
                self.nodes[ident] = "PyPIDistribution"
                self.roots.add(ident)
                for n in DISTS[args[0]]:
                    self.load(n)
                    self.edge(ident, n)
                self.flush()
        elif what == "excludes":
            self.excl |= set(EXCLUDES)
        elif what == "implies":
            for k, v in IMPLIES.items():
                self.implied[k] = v
        elif what == "import":
            if "a" in self.nodes:
                self.load(args[0])
                self.edge("a", args[0])
                self.flush()
        elif what == "raw":
            # import_module outside of a hook: the node, without its dependencies
            if "a" in self.nodes:
                self.edge("a", args[0])
                if args[0] not in self.nodes:
                    self.nodes[args[0]] = KIND[args[0]]
                    self.pending.append(args[0])
        elif what == "package":
            if "a" in self.nodes:
                self.package("a", args[0])
                self.flush()
        elif what == "source":
            for n in ("e", "p", "p.m", "ns.k"):
                self.add(n)
        elif what == "missing_hook":
            self.mh = True
        elif what == "post_hook":
            self.ph = True
        return None

    def canon(self):
        return {
            "nodes": {n: {"class": k} for n, k in self.nodes.items()},
            "edges": {f"{s} -> {d}": sorted((list(a) for a in at), key=repr) for (s, d), at in self.edges.items()},
            "roots": sorted(self.roots),
        }


def perform(op, mg, root):
    """Run an operation on the implementation; the name of the documented error or None"""
    import modulegraph2 as M

    what, *args = OPS.get(op) or OPS_END[op]
    if what == "module":
        expect(mg.add_module(args[0]) is mg.find_node(args[0]), f"add_module({args[0]!r}) returns another node")
    elif what == "script":
        path = os.path.join(root, args[0])
        try:
            node = mg.add_script(path)
        except ValueError:
            return "ValueError"
        expect(node is mg.find_node(path), f"add_script({args[0]!r}) returns another node")
    elif what == "dist":
        node = mg.add_distribution(args[0])
        expect(node.name == args[0] and mg.find_node(node.identifier) is node, f"add_distribution returns {node!r}")
    elif what == "excludes":
        mg.add_excludes(iter(EXCLUDES))
    elif what == "implies":
        conv = {"alias": M.Alias, "virtual": M.Virtual}
        mg.add_implies({
            k: conv[v.split(":")[0]](v.split(":")[1]) if isinstance(v, str) else v for k, v in IMPLIES.items()
        })
    elif what in ("import", "package"):
        a = mg.find_node("a")
        if a is not None:
            with mg.hook_context():
                if what == "import":
                    node = mg.import_module(a, args[0])
                else:
                    node = mg.import_package(a, args[0])
            expect(node is mg.find_node(args[0]), f"{what} of {args[0]!r} returns another node")
    elif what == "raw":
        a = mg.find_node("a")
        if a is not None:
            expect(mg.import_module(a, args[0]) is mg.find_node(args[0]), "import_module returns another node")
    elif what == "end":
        with mg.hook_context():
            pass
    elif what == "source":
        mg.add_dependencies_for_source(SOURCE)
    elif what == "missing_hook":
        mg.add_missing_hook(missing_hook)
    elif what == "post_hook":
        mg.add_post_processing_hook(post_hook)
    return None


def missing_hook(mg, importer, name):
    import modulegraph2 as M

    if name != "zz":
        return None
    node = M.VirtualNode("zz", "d")
    mg.add_node(node)
    mg.import_module(node, "d")
    return node


def post_hook(mg, node):
    if node.name == "p.m" and type(node).__name__ == "SourceModule":
        mg.import_module(node, "x3")


def setup(env):
    """the program is the same for all cases: written once for each worker"""
    path = os.path.join(env.root, "program")
    os.mkdir(path)
    write_tree(path, FILES)
    env.program = path


def real_canon(mg, root):
    """
    The reachable part: a name that is imported from a package and is not a
    submodule may leave an unreachable missing module behind.
    """
    c = canon(mg, root)
    reach = {n.replace(root, "$") for n in reachable(mg)}
    for n, r in c["nodes"].items():
        expect(n in reach or r["class"] == "MissingModule", f"{n!r} ({r['class']}) is in the graph but not reachable")
    c["nodes"] = {n: {"class": r["class"]} for n, r in c["nodes"].items() if n in reach}
    c["edges"] = {e: a for e, a in c["edges"].items() if e.split(" -> ")[0] in reach}
    return c


class Tracker:
    """Invariants that hold in every state, and along every transition"""

    def __init__(self, mg):
        self.mg = mg
        self.ids = {}
        self.edges = {}

    def check(self):
        mg = self.mg
        ids = {}
        for n in mg.nodes():
            i = n.identifier
            expect(i not in ids, f"two nodes with identifier {i!r}")
            ids[i] = n
            expect(mg.find_node(i) is n and i in mg and n in mg, f"node {i!r} cannot be found")
            if type(n).__name__ != "PyPIDistribution":
                expect(n.name == i, f"node {i!r} has name {n.name!r}")
        edges = {}
        for s, d, data in mg.edges():
            expect(ids.get(s.identifier) is s and ids.get(d.identifier) is d,
                   f"edge {s.identifier!r} -> {d.identifier!r} between nodes that are not in the graph")
            expect(len(data) > 0, f"edge {s.identifier!r} -> {d.identifier!r} without attributes")
            edges[s.identifier, d.identifier] = {tuple(depinfo(x)) for x in data}
        out = {(n, t.identifier) for n in ids for _, t in mg.outgoing(n)}
        inc = {(t.identifier, n) for n in ids for _, t in mg.incoming(n)}
        expect(out == set(edges) == inc, "edges(), outgoing() and incoming() disagree")
        for i, n in self.ids.items():
            expect(ids.get(i) is n, f"node {i!r} was removed or replaced")
        for e, attrs in self.edges.items():
            expect(attrs <= edges.get(e, set()), f"edge {e} lost attributes {sorted(attrs, key=repr)}")
        roots = [r.identifier for r in mg.roots()]
        expect(len(set(roots)) == len(roots), f"duplicate roots {roots}")
        for r in mg.roots():
            expect(ids.get(r.identifier) is r, f"root {r.identifier!r} is not in the graph")
        reach = reachable(mg)
        it = [n.identifier for n in mg.iter_graph()]
        expect(len(it) == len(set(it)) and set(it) == reach, "iter_graph() is not the reachable part of the graph")
        for i, n in ids.items():
            kind = type(n).__name__
            if "/" in i or kind == "InvalidRelativeImport":
                continue
            for par in parents(i):
                expect(par in ids, f"{i!r} is in the graph without its package {par!r}")
            if "." in i and (kind != "MissingModule" or i in reach):
                expect((i, i.rpartition(".")[0]) in edges, f"{i!r} has no edge to its package")
        self.ids, self.edges = ids, edges
        return ids


def compare(mg, model, root, what):
    if model.pending:
        return real_canon(mg, root)
    got, want = real_canon(mg, root), model.canon()
    if got != want:
        expect(False, f"{what}: the graph differs from the specification (got vs expected): {diff_canon(got, want)}")
    return got
