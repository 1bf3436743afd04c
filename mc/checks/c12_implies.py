"""
C12: implied actions have exactly their documented effect.
"""
from importlib.machinery import EXTENSION_SUFFIXES
from itertools import combinations, permutations, product

from ..core import Result, expect, expect_eq
from .c07_resolution import pyc
from ..util import write_tree, new_graph, canon, reachable, depinfo, parents, diff_canon

PROPERTY = "C12"
TITLE = "implied actions have exactly their documented effect"
ASSUMPTIONS = ["submodules of an aliased or virtual name are looked up by their own name"]

FILES = {
    "a.py": "import da\nv = 1\n", "b.py": "import db\n", "da.py": "", "db.py": "", "dm.py": "", "dp.py": "",
    "p/__init__.py": "import dp\n", "p/m.py": "import dm\nv = 1\n", "p/k.py": "",
    "q/__init__.py": "import b\nv = 1\n", "q/sub.py": "import da\n",
}
IMPORTS = {"a": ["da"], "b": ["db"], "p": ["dp"], "p.m": ["dm"], "q": ["b"], "q.sub": ["da"]}
ATTRS = {"a": {"v", "da"}, "b": {"db"}, "p": {"dp"}, "p.m": {"v", "dm"}, "q": {"v", "b"}, "q.sub": {"da"}}
PKGS = {"p", "q"}
REAL = {"a", "b", "da", "db", "dm", "dp", "p", "p.m", "p.k", "q", "q.sub"}
KEYS = ["a", "b", "p", "p.m", "q", "zz", "q.sub", "zz.y"]
TARGETS = ["a", "b", "p", "p.m", "q", "zz", "q.sub"]
#: modules of other kinds
EXTRA = {
    "itertools": "BuiltinModule", "ext": "ExtensionModule", "n": "NamespacePackage", "n.s": "SourceModule", "bc": "BytecodeModule",
    "inv": "InvalidModule", "x": "Package",
}
IMPORTS.update({"n.s": ["da"], "bc": ["db"]})
ATTRS.update({"n": set(), "x": set()})
EXTRA_ST = [["import", k] for k in EXTRA] + [["from", k, n] for k, n in (("n", "s"), ("n", "nope"), ("x", "nope"), ("ext", "nope"), ("bc", "v"), ("zz", "s"), ("a", "v"))]
STMTS = [
    ["import", "a"], ["import", "b"], ["import", "p"], ["import", "p.m"], ["import", "q"], ["import", "zz"], ["import", "zz.y"],
    ["import", "q.sub"],
    ["from", "a", "v"], ["from", "a", "sub"], ["from", "p", "m"], ["from", "zz", "sub"], ["from", "zz", "m"], ["from", "q", "sub"],
    ["from", "a", "nope"], ["from", "zz", "nope"], ["from", "b", "k"],
]


def values(tier):
    for t in TARGETS:
        yield ["alias", t]
        yield ["virtual", t]
        yield ["seq", t]
    yield ["none"]
    yield ["seq"]
    for t, u in combinations(TARGETS, 2):
        yield ["seq", t, u]


def BOUND(tier):
    return (
        f"one and two{'' if tier == 'quick' else ' and three'} implied actions: {len(KEYS)} keys (module, package, submodule, missing) x every "
        f"kind (alias, virtual, sequence of 0..2, None) x {len(TARGETS)} targets (including the key itself, cycles and "
        f"chains) x {len(STMTS)} import statements, the same for {len(EXTRA)} modules of other kinds (built-in, extension, namespace, byte code, ...), and calls of add_implies in different order/split/repeated/late; exact expected "
        "graph from a 40 line reference; state = canonical graph"
    )


def cases(tier):
    vals = list(values(tier))
    short = [v for v in vals if len(v) <= 2]
    for st in STMTS:
        for k in KEYS:
            for v in vals:
                yield {"st": [st], "imp": [[k, v]]}
    for order in ("split", "split-rev", "override", "late", "keep-excl"):
        for st in STMTS:
            for k in KEYS:
                for v in short:
                    yield {"st": [st], "imp": [[k, v]], "order": order}
    for st in STMTS:
        for k, k2 in permutations(KEYS, 2):
            for v in short:
                for v2 in short:
                    if v[-1] == k2 or tier == "thorough":  # only interesting when they interact
                        yield {"st": [st], "imp": [[k, v], [k2, v2]]}
    extra = [[kind, t] for kind in ("alias", "virtual", "seq") for t in list(EXTRA) + ["a", "zz"]]
    for st in EXTRA_ST + STMTS[:1]:
        for k in [*EXTRA, "zz", "a"]:
            for v in extra + [["none"], ["seq"]]:
                yield {"st": [st], "imp": [[k, v]]}
                for v2 in short if tier == "thorough" else ([["seq", "q.sub"], ["alias", "p.m"], ["virtual", "n.s"], ["none"], ["seq", k]]):
                    if len(v) > 1 and v[-1] != k and v[-1] in EXTRA:
                        yield {"st": [st], "imp": [[k, v], [v[-1], v2]]}
    if tier == "thorough":
        for st in STMTS:
            for k, k2, k3 in permutations(KEYS, 3):
                for v, v2 in product(short, repeat=2):
                    if v[-1] == k2 and v2[-1] == k3:
                        for v3 in short:
                            yield {"st": [st], "imp": [[k, v], [k2, v2], [k3, v3]]}


class Ref:
    def __init__(self, implies):
        self.implies = implies
        self.cls = {}
        self.out = {}
        self.queue = []

    def edge(self, s, t, *attr):
        self.out.setdefault(s, {}).setdefault(t, set()).add(attr or (False, True, False, None))

    def load(self, name):
        if name in self.cls:
            return
        par = name.rpartition(".")[0]
        if par:
            self.load(par)
        if name in self.cls:
            return
        if par and self.cls[par] in ("MissingModule", "ExcludedModule"):
            self.cls[name] = self.cls[par]
        else:
            v = self.implies.get(name)
            if v is None:
                self.normal(name)
            elif v[0] == "none":
                self.cls[name] = "ExcludedModule"
            elif v[0] in ("alias", "virtual"):
                self.cls[name] = "AliasNode" if v[0] == "alias" else "VirtualNode"
                self.load(v[1])
                self.edge(name, v[1])
            else:
                self.normal(name)
                for t in v[1:]:
                    self.load(t)
                    self.edge(name, t)
        if par:
            self.edge(name, par)

    def normal(self, name):
        self.cls[name] = ("Package" if name in PKGS else "SourceModule") if name in REAL else EXTRA.get(name, "MissingModule")
        if name in IMPORTS:
            self.queue += [(name, ["import", t]) for t in IMPORTS.get(name, ())]

    def run(self, stmts):
        self.cls["r"] = "SourceModule"
        self.queue = [("r", st) for st in stmts]
        while self.queue:
            src, st = self.queue.pop(0)
            self.load(st[1])
            self.edge(src, st[1])
            if st[0] == "from":
                self.queue.append((src, ["names", st[1], st[2]])) if False else self.names(src, st[1], st[2])

    def names(self, src, base, nm):
        seen = set()
        while self.cls[base] == "AliasNode":
            if base in seen:
                return
            seen.add(base)
            base = self.implies[base][1]
        if self.cls[base] not in ("Package", "NamespacePackage"):
            return
        full = f"{base}.{nm}"
        if nm in ATTRS[base] and full not in REAL and full not in EXTRA:
            return
        self.load(full)
        self.edge(src, full, False, True, True, None)
        self.edge(full, base)


def value(v):
    import modulegraph2 as m

    return {"alias": lambda: m.Alias(v[1]), "virtual": lambda: m.Virtual(v[1]), "none": lambda: None, "seq": lambda: tuple(v[1:])}[v[0]]()


def setup_env(env):
    env.lib = env.root + "/lib12"
    write_tree(env.lib, FILES)
    write_tree(env.lib, {
        "ext" + EXTENSION_SUFFIXES[0]: b"", "n/s.py": "import da\n", "bc.pyc": pyc("import db\nv = 1\n"), "inv.py": "def 1\n",
        "x/__init__" + EXTENSION_SUFFIXES[0]: b"",
    })


def run_case(case, env):
    res = Result()
    imp = {k: v for k, v in case["imp"]}
    ref = Ref(imp)
    ref.run(case["st"])
    src = "".join(f"import {st[1]}\n" if st[0] == "import" else f"from {st[1]} import {st[2]}\n" for st in case["st"])
    with env.case(extra_path=[env.lib]) as d:
        write_tree(d, {"r.py": src})
        mg = new_graph()
        order = case.get("order")
        if order is None:
            mg.add_implies({k: value(v) for k, v in imp.items()})
        elif order in ("split", "split-rev"):
            items = list(imp.items()) + [("unused", ["alias", "a"]), ("other", ["none"])]
            for k, v in items if order == "split" else items[::-1]:
                mg.add_implies({k: value(v)})
        elif order == "override":
            # the last one is used
            mg.add_implies({k: value(["virtual", "dm"]) for k in imp})
            mg.add_implies({k: ("zz2",) for k in imp})
            mg.add_implies({k: value(v) for k, v in imp.items()})
        elif order == "keep-excl":
            mg.add_implies({k: None for k in imp})
            mg.add_implies({k: value(v) for k, v in imp.items()})
            ref = Ref({k: ["none"] for k in imp})
            ref.run(case["st"])
        mg.add_module("r")
        if order == "late":
            ref = Ref({})
            ref.run(case["st"])
            before = canon(mg, d)
            mg.add_implies({k: value(v) for k, v in imp.items()})
            mg.add_module("r")
            expect(canon(mg, d) == before, "add_implies changes modules that are already in the graph")
        reach = reachable(mg)
        nodes = {n.identifier: n for n in mg.nodes() if n.identifier in reach}
        got_cls = {k: type(n).__name__ for k, n in nodes.items()}
        expect_eq(sorted(got_cls.items()), sorted(ref.cls.items()), "nodes")
        got = {}
        for s, t, data in mg.edges():
            if s.identifier in reach:
                got.setdefault(s.identifier, {})[t.identifier] = {tuple(depinfo(x)) for x in data}
        for s in sorted(set(got) | set(ref.out)):
            expect_eq(sorted(got.get(s, {}).items(), key=repr), sorted(ref.out.get(s, {}).items(), key=repr), f"edges of {s!r}")
        for k, n in nodes.items():
            if got_cls[k] == "AliasNode":
                expect_eq(str(n.actual_module), imp[k][1], f"actual_module of {k!r}")
            if got_cls[k] == "VirtualNode":
                expect_eq(str(n.providing_module), imp[k][1], f"providing_module of {k!r}")
        res.step(len(reach))
        res.state(canon(mg, d))
    res.outcome = sorted(set(ref.cls.values()))
    return res
