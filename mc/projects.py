"""
Enumeration of small multi-module projects, an independent static reference
(what must / may be in the graph) and a run-time oracle (what CPython really
imports).
"""

import importlib
import importlib.machinery
import sys
from itertools import product, combinations

from .util import render, parents, resolve_relative

V = ["assign", "v"]

# ------------------------------------------------------------------ statements


def I(mod, asname=None):  # noqa: E743
    return ["import", mod, asname]


def F(mod, *names, level=0):
    return ["from", level, mod, [list(n) if isinstance(n, tuple) else [n, None] for n in names]]


def S(mod, level=0):
    return ["star", level, mod]


#: files of the universe (module name -> relative path); ns is an implicit namespace package
FILES = {
    "r": "r.py",
    "a": "a.py",
    "b": "b.py",
    "p": "p/__init__.py",
    "p.m": "p/m.py",
    "p.b": "p/b.py",
    "p.q": "p/q/__init__.py",
    "p.q.n": "p/q/n.py",
    "ns.k": "ns/k.py",
}
PACKAGES = {"p", "p.q"}

ABS = [
    I("a"), I("b", "x"), I("p"), I("p.m"), I("p.m", "x"), I("p.q.n"), I("ns.k"),
    F("a", "v"), F("a", ("v", "m")), F("a", "b"), S("a"),
    F("p", "m"), F("p", ("m", "b")), F("p", "v"), F("p", "q"), F("p", "b", "q"), S("p"), F("p", "x"),
    F("p.q", "n"), F("p.q", "v", "n"), F("ns", "k"), F("p.m", "v"), F("p.q.n", "v"),
    # unresolvable
    I("zz"), I("zz.y", "w"), I("a.zz"), I("p.zz"), F("p", "zz"), F("p", "m", "zz"), F("zz", "v"),
    F("ns", "zz"), F("p.zz", "v"), F("a", "zz"), F("p.q", "zz", "n"), I("ns.zz.y"), F("r", "v"), I("r"),
]
REL_P = [
    F("", "m", level=1), F("", "q", level=1), F("", ("m", "q"), level=1), F("", "b", ("v", "x"), level=1),
    F("m", "v", level=1), F("b", ("v", "m"), level=1), F("q", "n", level=1), F("q.n", "v", level=1), S("m", level=1),
    S("", level=1), F("", "zz", level=1), F("zz", "v", level=1), F("", "a", level=2), F("a", "v", level=2),
    F("m", "b", level=1), S("q", level=1),
]
REL_Q = [
    F("", "n", level=1), F("n", "v", level=1), F("", "m", level=2), F("", "b", ("q", "x"), level=2), F("b", "v", level=2),
    F("m", ("v", "n"), level=2), F("", "v", level=2), S("", level=2), S("m", level=2), F("q.n", "v", level=2), F("", "zz", level=2),
    F("", "a", level=3), F("a", "v", level=3), F("zz", "v", level=2), S("n", level=1),
]
ASSIGN = [["assign", "m"], ["assign", "q"], ["assign", "n"], ["assign", "x"], ["assign", "zz"]]

ALPHA = {
    "r": ABS,
    "a": ABS + [["assign", "b"]],
    "b": ABS,
    "p": ABS + REL_P + ASSIGN + [["assign", "a"]],
    "p.m": ABS + REL_P + [["assign", "q"], ["assign", "x"]],
    "p.b": ABS + REL_P,
    "p.q": ABS + REL_Q + [["assign", "n"], ["assign", "zz"]],
    "p.q.n": ABS + REL_Q,
    "ns.k": ABS + [F("", "k", level=1), F("", "zz", level=1), F("", "a", level=2)],
}


#: universe with the same name at all levels
FILES_NAMES = {
    "r": "r.py",
    "x": "x.py",
    "tool": "tool/__init__.py",
    "tool.tool": "tool/tool.py",
    "tool.r": "tool/r.py",
    "tool.x": "tool/x/__init__.py",
    "tool.x.tool": "tool/x/tool.py",
    "tool.x.x": "tool/x/x.py",
    "ns.ns": "ns/ns.py",
    "ns.tool": "ns/tool.py",
}
ABS_NAMES = [
    F("tool", "tool"), F("tool", "x"), F("tool", ("x", "tool")), F("tool", ("tool", "x")), F("tool", "x", "tool"),
    I("tool.x.tool"), S("tool"), F("x", "tool"),
    I("tool"), I("x"), I("tool.tool"), I("tool", "x"), I("tool.tool", "tool"), I("tool.x", "x"), F("tool", "r"), F("tool.x", "tool"),
    F("tool.x", "x"), F("tool.tool", "v"), F("tool.tool", "tool"), F("tool.tool", "x"), F("tool.x.tool", "x"), F("tool.x.x", "x"),
    F("x", "x"), S("tool.x"), S("x"), F("ns", "ns"), I("ns.ns"), F("ns", "tool"), F("ns.ns", "ns"), F("ns", "x"), I("x.x"),
    F("r", "tool"), I("r"),
]
REL_TOOL = [
    F("", "tool", level=1), F("", "x", level=1), F("", ("x", "tool"), level=1), F("tool", "v", level=1), F("tool", "tool", level=1),
    F("tool", "x", level=1), F("x", "tool", level=1), F("x", "x", level=1), F("", "r", level=1), S("x", level=1), S("tool", level=1),
    F("", "x", level=2), F("r", "x", level=1),
]
REL_X = [
    F("", "tool", level=1), F("", "x", level=1), F("", "tool", level=2), F("", "x", level=2), F("tool", "v", level=2), F("tool", "v", level=1),
    F("x", "x", level=1), F("x", "x", level=2), F("x", "tool", level=2), F("tool", "x", level=2), S("", level=2), S("x", level=1),
    F("", "x", level=3),
]
ALPHA_NAMES = {
    "r": ABS_NAMES,
    "x": ABS_NAMES,
    "tool": ABS_NAMES + REL_TOOL + [["assign", "tool"], ["assign", "x"], ["assign", "r"]],
    "tool.tool": ABS_NAMES + REL_TOOL + [["assign", "x"]],
    "tool.r": ABS_NAMES + REL_TOOL,
    "tool.x": ABS_NAMES + REL_X + [["assign", "tool"], ["assign", "x"]],
    "tool.x.tool": ABS_NAMES + REL_X,
    "tool.x.x": ABS_NAMES + REL_X,
    "ns.ns": ABS_NAMES + [F("", "ns", level=1), F("", "tool", level=1), F("ns", "v", level=1)],
    "ns.tool": ABS_NAMES + [F("", "ns", level=1), F("", "tool", level=1)],
}

#: universe with special names; d.__init__ is the same file as d
FILES_SPECIAL = {
    "r": "r.py",
    "_u": "_u.py",
    "d": "d/__init__.py",
    "d.__init__": "d/__init__.py",
    "d.__main__": "d/__main__.py",
    "d._s": "d/_s.py",
    "d.e": "d/e/__init__.py",
    "d.e.__init__": "d/e/__init__.py",
    "d.e.__main__": "d/e/__main__.py",
    "dn.__main__": "dn/__main__.py",
    "dn.__version__": "dn/__version__.py",
}
SAME = {"d.__init__": "d", "d.e.__init__": "d.e"}
ABS_SPECIAL = [
    F("d", "__main__"), F("d", "__init__"), F("d", "__path__"), F("d", "__version__"), S("d"), I("d.e.__main__"),
    F("d", "__name__"), F("d", "__doc__"), F("d", "__file__"), F("d", "__spec__"), F("d", ("__path__", "__main__")), F("d", "__main__", "__name__"),
    F("d", "_s"), I("d.__main__"), I("d.__init__"), I("d.__init__", "i"), I("d._s"), I("_u"), F("_u", "__name__"), F("d._s", "__file__"),
    F("d.e", "__main__"), F("d.e", "__init__"), F("d.e", "__package__"), F("d.e", "__loader__"), F("dn", "__path__"), F("dn", "__name__"),
    F("dn", "__main__"), F("dn", "__version__"), F("dn", "__file__"), I("d.__path__"), F("d.__main__", "v"), F("d.__init__", "__main__"),
    F("d", "__all__"), F("d", "__dict__"), F("d.__path__", "v"),
]


def keep(sts):
    """Statements that do not rebind the attributes of the module that contains them"""
    return [
        ["from", st[1], st[2], [[n, a or ("i" + n if n in IMPLICIT | IMPLICIT_FILE else None)] for n, a in st[3]]] if st[0] == "from" else st
        for st in sts
    ]


#: names that every package / regular package has
IMPLICIT = {"__name__", "__doc__", "__package__", "__loader__", "__spec__", "__path__", "__dict__", "__class__"}
IMPLICIT_FILE = {"__file__", "__cached__", "__builtins__"}
REL_D = [
    F("", "__main__", level=1), F("", "__init__", level=1), F("", "__path__", level=1), F("", "__name__", "__version__", level=1),
    F("", "_s", level=1), F("__init__", "v", level=1), F("__main__", "v", level=1), F("", ("__file__", "_s"), level=1), F("_s", "__doc__", level=1),
    S("", level=1), S("_s", level=1), F("e", "__path__", level=1), F("e", "__main__", level=1), F("", "__name__", level=2),
]
REL_E = [
    F("", "__main__", level=1), F("", "__path__", level=1), F("", "__main__", level=2), F("", "__doc__", level=2), F("_s", "v", level=2),
    F("__main__", "v", level=2), F("__init__", "e", level=2), S("", level=2), F("", "__version__", level=2),
]
ALPHA_SPECIAL = {
    "r": ABS_SPECIAL,
    "_u": ABS_SPECIAL,
    "d": ABS_SPECIAL + REL_D + [["assign", "__version__"], ["assign", "__main__"], ["assign", "_s"]],
    "d.__main__": ABS_SPECIAL + REL_D,
    "d._s": ABS_SPECIAL + REL_D + [["assign", "__version__"]],
    "d.e": ABS_SPECIAL + REL_E + [["assign", "__version__"]],
    "d.e.__main__": ABS_SPECIAL + REL_E,
    "dn.__main__": ABS_SPECIAL + [F("", "__version__", level=1), F("", "__path__", level=1), F("", "__init__", level=1)],
}

for _m in ALPHA_SPECIAL:
    if _m != "r":
        ALPHA_SPECIAL[_m] = keep(ALPHA_SPECIAL[_m])

WORLDS = [(FILES, ALPHA), (FILES_NAMES, ALPHA_NAMES), (FILES_SPECIAL, ALPHA_SPECIAL)]
PACKAGES |= {"tool", "tool.x", "d", "d.e"}
PATHS = {m: p for files, _ in WORLDS for m, p in files.items()}


class Universe:
    """Static view of a project: {module: [stmts]}"""

    def __init__(self, mods, packages=PACKAGES, excluded=()):
        self.excl = frozenset(excluded)
        self.namespaces = set()
        for m in mods:
            for par in parents(m):
                if par not in mods:
                    self.namespaces.add(par)
        mods = {m: st for m, st in mods.items() if not self.excluded(m)}
        self.mods = mods
        self.packages = set(packages) & set(mods)
        self._names = {}
        self._closure = {}

    def excluded(self, name):
        return bool(self.excl) and any(n in self.excl for n in parents(name) + [name])

    def exists(self, name):
        return not self.excluded(name) and (name in self.mods or name in self.namespaces)

    def ispkg(self, name):
        return name in self.packages or name in self.namespaces

    def package_of(self, m):
        return m if m in self.packages else m.rpartition(".")[0]

    def base(self, m, st):
        """absolute name a statement imports from, or None (invalid relative)"""
        if st[0] == "import":
            return st[1]
        if st[0] == "from":
            return resolve_relative(self.package_of(m), st[1], st[2])
        if st[0] == "star":
            return resolve_relative(self.package_of(m), st[1], st[2])
        return None

    # names bound in a module's namespace: (certain, possible)
    def names(self, m, _seen=None):
        if _seen is None and m in self._names:
            return self._names[m]
        seen = set() if _seen is None else _seen
        if m not in self.mods:
            return (set(IMPLICIT), IMPLICIT | IMPLICIT_FILE) if m in self.namespaces else (set(), set())
        certain = {"v"} | IMPLICIT | IMPLICIT_FILE
        possible = set(certain)
        if m in seen:
            return certain, possible
        seen = seen | {m}
        for st in self.mods[m]:
            if st[0] == "assign":
                certain.add(st[1])
            elif st[0] == "import":
                certain.add(st[2] or st[1].split(".")[0])
            elif st[0] == "from":
                for n, a in st[3]:
                    certain.add(a or n)
                    possible.add(n)
            elif st[0] == "star":
                b = self.base(m, st)
                if b is not None and self.exists(b):
                    cs, ps = self.names(b, seen)
                    possible |= ps
                    if m not in self.closure(b):
                        # not an import cycle
                        certain |= {n for n in cs if not n.startswith("_")}
        possible |= certain
        if _seen is None:
            self._names[m] = (certain, possible)
        return certain, possible

    def closure(self, m):
        """names of all modules that importing *m* can import"""
        if m not in self._closure:
            seen, todo = set(), [m]
            while todo:
                n = todo.pop()
                if n in seen:
                    continue
                seen.add(n)
                todo.extend(parents(n))
                for st in self.mods.get(n, ()):
                    b = self.base(n, st)
                    if b is not None:
                        todo.append(b)
                        if st[0] == "from":
                            todo.extend(f"{b}.{nm}" for nm, _ in st[3])
            self._closure[m] = seen
        return self._closure[m]

    def chain(self, name):
        """node classes for *name* and its parents: [(name, exists)]"""
        out = []
        ok = True
        for n in parents(name) + [name]:
            ok = ok and self.exists(n)
            out.append((n, ok))
        return out


class Reference:
    """Must/may sets for the graph that results from adding *root*"""

    def __init__(self, uni, root):
        self.uni = uni
        self.must = set()  # existing modules that must be reachable
        self.may = set()
        self.must_missing = set()
        self.may_missing = set()
        self.invalid = set()
        self.must_edges = {}  # (src, dst) -> set(attrs)
        self.may_edges = {}
        must_todo, may_todo = [], []
        self._done = {}
        self.visit(root, True)

    def _edge(self, table, src, dst, attr):
        table.setdefault((src, dst), set()).add(attr)

    def visit(self, name, required):
        """process *name* (any dotted name) and everything it imports"""
        stack = [(name, required)]
        while stack:
            name, required = stack.pop()
            if self._done.get(name, -1) >= required:
                continue
            self._done[name] = int(required)
            parent = name.rpartition(".")[0]
            ok = all(e for _, e in self.uni.chain(name))
            if ok:
                self.may.add(name)
                if required:
                    self.must.add(name)
            else:
                self.may_missing.add(name)
                if required:
                    self.must_missing.add(name)
            if parent:
                stack.append((parent, required))
                self._edge(self.may_edges, name, parent, (False, True, False, None))
                if required and ok:
                    self._edge(self.must_edges, name, parent, (False, True, False, None))
            if ok and name in self.uni.mods:
                for st in self.uni.mods[name]:
                    stack.extend(self.statement(name, st, required))

    def statement(self, m, st, required):
        uni = self.uni
        if st[0] == "assign":
            return
        b = uni.base(m, st)
        if b is None:
            name = "." * st[1] + st[2]
            self.invalid.add((name, m, required))
            return
        asname = st[2] if st[0] == "import" else None
        attr = (False, True, False, asname)
        self._edge(self.may_edges, m, b, attr)
        if required:
            self._edge(self.must_edges, m, b, attr)
        yield b, required
        if st[0] != "from" or not uni.exists(b) or not all(e for _, e in uni.chain(b)):
            return
        certain, possible = uni.names(b)
        for n, a in st[3]:
            full = f"{b}.{n}"
            eattr = (False, True, True, a)
            # re-exported modules: an edge to whatever b binds under that name
            for tgt in self.bound_modules(b, n):
                self._edge(self.may_edges, m, tgt, eattr)
            if not uni.ispkg(b):
                continue
            if uni.exists(full):
                req = required and n not in possible
                self._edge(self.may_edges, m, full, eattr)
                if req:
                    self._edge(self.must_edges, m, full, eattr)
                yield full, req
            elif n in certain:
                if uni.excluded(full):
                    # excluding the name of an attribute
                    self._edge(self.may_edges, m, full, eattr)
                    yield full, False
            else:
                req = required and n not in possible
                self._edge(self.may_edges, m, full, eattr)
                self._edge(self.may_edges, full, b, (False, True, False, None))
                if req:
                    self._edge(self.must_edges, m, full, eattr)
                yield full, req

    def bound_modules(self, b, n, _seen=frozenset()):
        """modules that name *n* in the namespace of *b* may refer to"""
        out = {n} & set(parents(b))
        if (b, n) in _seen or b not in self.uni.mods:
            return out
        seen = _seen | {(b, n)}
        for st in self.uni.mods[b]:
            base = self.uni.base(b, st)
            if base is None:
                continue
            if base == n and (st[0] != "import" or st[2] is None):
                # 'import n', and 'from n import y' next to another binding of n
                out.add(base)
            if st[0] == "import" and (st[2] == n or (st[2] is None and st[1] == n)):
                out.add(base)
            elif st[0] == "from":
                for nm, a in st[3]:
                    if (a or nm) == n or nm == n:
                        out.add(f"{base}.{nm}")
                        out |= self.bound_modules(base, nm, seen)
            elif st[0] == "star":
                out |= self.bound_modules(base, n, seen)
        return out


# ------------------------------------------------------------------ enumeration


def used(uni, root="r"):
    return Reference(uni, root).may


def normal(mods):
    """True when every module with statements takes part in the project"""
    ref = used(Universe(mods))
    return all(m in ref for m, st in mods.items() if st and m not in SAME)


def relevant(case):
    """Unused files: equivalent to a smaller case"""
    return len(case) == 1 or normal(project(case))


def project(case):
    """{module: statements} of a case; key "w" is the universe"""
    return {m: list(case.get(SAME.get(m, m), ())) for m in WORLDS[case.get("w", 0)][0]}


def enum_worlds(tier):
    """All projects of enum_projects() and, less deep, those in the other universes"""
    yield from enum_projects(tier)
    for w, (files, alpha) in enumerate(WORLDS):
        if w == 0:
            continue
        for s in alpha["r"]:
            yield {"w": w, "r": [s]}
        for s, t in product(alpha["r"], repeat=2):
            yield {"w": w, "r": [s, t]}
        others = [m for m in alpha if m != "r"]
        for s in alpha["r"]:
            for f in others:
                for t in alpha[f]:
                    yield {"w": w, "r": [s], f: [t]}
        deep = alpha["r"] if tier == "thorough" else alpha["r"][:6]
        for s in deep:
            for f in others:
                if tier == "thorough" or f in PACKAGES:
                    for t, u in product(alpha[f], repeat=2):
                        yield {"w": w, "r": [s], f: [t, u]}
        for s in deep if tier == "thorough" else deep[:2]:
            for f, g in combinations(others, 2):
                for t in alpha[f]:
                    u1 = used(Universe(project({"w": w, "r": [s], f: [t]})))
                    if f in u1 or g in u1:
                        for u in alpha[g]:
                            yield {"w": w, "r": [s], f: [t], g: [u]}


def enum_projects(tier, alpha=ALPHA):
    """
    root statement x every pair of other files with one statement each;
    two root statements x one other file; (thorough) two statements in one file x one in another,
    root x every triple.
    """
    others = [m for m in FILES if m != "r"]
    for s in alpha["r"]:
        yield {"r": [s]}
    for s, t in product(alpha["r"], repeat=2):
        yield {"r": [s, t]}
    for s in alpha["r"]:
        for f in others:
            for t in alpha[f]:
                yield {"r": [s], f: [t]}
    for s in alpha["r"]:
        for f in others:
            if f not in ("p", "a", "p.q") and tier == "quick":
                continue
            for t, u in product(alpha[f], repeat=2):
                if tier == "quick" and not interesting(s):
                    continue
                yield {"r": [s], f: [t, u]}
    for s in alpha["r"]:
        if tier == "quick" and not interesting(s):
            continue
        for f, g in combinations(others, 2):
            for t in alpha[f]:
                c1 = project({"r": [s], f: [t]})
                u1 = used(Universe(c1))
                if f not in u1 and g not in u1:
                    continue
                for u in alpha[g]:
                    yield {"r": [s], f: [t], g: [u]}
    if tier == "thorough":
        for s, s2 in product(alpha["r"], repeat=2):
            if not (interesting(s) and interesting(s2)):
                continue
            for f in others:
                for t in alpha[f]:
                    yield {"r": [s, s2], f: [t]}


_INTERESTING = None


def interesting(s):
    """root statements used for the deep part of the quick enumeration: one per shortcut"""
    global _INTERESTING
    if _INTERESTING is None:
        _INTERESTING = [I("p.q.n"), F("p", "m"), F("p", "b", "q"), S("p"), F("a", "b"), F("p", "x")]
    return s in _INTERESTING


def tree(mods):
    return {PATHS[m]: render([V] + st) for m, st in mods.items()}


# ------------------------------------------------------------------ run-time oracle


class Spy:
    """meta_path finder that records which modules are found"""

    def __init__(self):
        self.found = []
        self.lookups = []

    def find_spec(self, name, path=None, target=None):
        self.lookups.append(name)
        for finder in self.delegates:
            spec = finder.find_spec(name, path, target)
            if spec is not None:
                self.found.append(name)
                return spec
        return None


def really_import(env, names):
    """
    Import *names* for real.  Returns (set of modules found and executed,
    list of missing names, error text); afterwards the import state is restored.
    """
    spy = Spy()
    spy.delegates = list(sys.meta_path)
    sys.meta_path[:] = [spy]
    missing, error = [], None
    base = set(sys.modules)
    try:
        for nm in names:
            try:
                importlib.import_module(nm)
            except ModuleNotFoundError as exc:
                missing.append(exc.name)
                error = f"{type(exc).__name__}: {exc}"
            except Exception as exc:
                error = f"{type(exc).__name__}: {exc}"
    finally:
        sys.meta_path[:] = spy.delegates
        loaded = {n for n in sys.modules if n not in base}
        env.purge()
    return set(spy.found) | loaded, missing, error
