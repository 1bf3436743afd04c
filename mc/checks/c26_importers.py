"""
C26: names that are provided by the importers of six, setuptools and pkg_resources, and
explicit namespace packages, are mapped to the modules that are really imported.
"""
import importlib
import os
import pkgutil
import sys

from itertools import permutations, product

from ..core import Result, expect, expect_eq
from ..util import write_tree, new_graph, canon, cls, edge_infos, reachable, diff_canon

PROPERTY = "C26"
TITLE = "virtual names of six, vendored packages and namespaces lead to the real modules"
ASSUMPTIONS = [
    "six 1.16 (a copy is in mc/data), the VendorImporter of setuptools 68 and the DistutilsMetaFinder of setuptools 81 "
    "(reduced copies of both are in this file) are representative of the importers that modulegraph2 has support for",
    "names used as attributes without importing them (six.moves.urllib.parse.quote) are outside of the static analysis",
]

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, "data", "six.py.txt"), "rb") as fp:
    SIX = fp.read()

# ------------------------------------------------------------------ six

#: name in six.moves: (module, None) for modules, (module, attribute) for attributes. Python 3 on unix.
MODULES = {
    "builtins": "builtins", "configparser": "configparser", "collections_abc": "collections.abc", "copyreg": "copyreg",
    "dbm_gnu": "dbm.gnu", "dbm_ndbm": "dbm.ndbm", "_dummy_thread": "_thread", "http_cookiejar": "http.cookiejar",
    "http_cookies": "http.cookies", "html_entities": "html.entities", "html_parser": "html.parser", "http_client": "http.client",
    "email_mime_base": "email.mime.base", "email_mime_image": "email.mime.image",
    "email_mime_multipart": "email.mime.multipart", "email_mime_nonmultipart": "email.mime.nonmultipart",
    "email_mime_text": "email.mime.text", "BaseHTTPServer": "http.server", "CGIHTTPServer": "http.server",
    "SimpleHTTPServer": "http.server", "cPickle": "pickle", "queue": "queue", "reprlib": "reprlib",
    "socketserver": "socketserver", "_thread": "_thread", "tkinter": "tkinter", "tkinter_dialog": "tkinter.dialog",
    "tkinter_filedialog": "tkinter.filedialog", "tkinter_scrolledtext": "tkinter.scrolledtext",
    "tkinter_simpledialog": "tkinter.simpledialog", "tkinter_tix": "tkinter.tix", "tkinter_ttk": "tkinter.ttk",
    "tkinter_constants": "tkinter.constants", "tkinter_dnd": "tkinter.dnd", "tkinter_colorchooser": "tkinter.colorchooser",
    "tkinter_commondialog": "tkinter.commondialog", "tkinter_tkfiledialog": "tkinter.filedialog",
    "tkinter_font": "tkinter.font", "tkinter_messagebox": "tkinter.messagebox",
    "tkinter_tksimpledialog": "tkinter.simpledialog", "urllib_parse": "urllib.parse", "urllib_error": "urllib.error",
    "urllib": "urllib", "urllib_robotparser": "urllib.robotparser", "xmlrpc_client": "xmlrpc.client",
    "xmlrpc_server": "xmlrpc.server",
}
NESTED = {f"urllib.{x}": f"urllib.{x}" for x in ("parse", "error", "request", "response", "robotparser")}
ATTRS = {
    "cStringIO": "io", "filter": "builtins", "filterfalse": "itertools", "input": "builtins", "intern": "sys", "map": "builtins",
    "getcwd": "os", "getcwdb": "os", "getoutput": "subprocess", "range": "builtins", "reload_module": "importlib",
    "reduce": "functools", "shlex_quote": "shlex", "StringIO": "io", "UserDict": "collections", "UserList": "collections",
    "UserString": "collections", "xrange": "builtins", "zip": "builtins", "zip_longest": "itertools",
}
UNKNOWN = ["nope", "_nope", "urllib.nope", "Tkinter"]

#: modules that are imported by six itself
SIX_IMPORTS = {"functools", "itertools", "operator", "sys", "types", "importlib", "importlib.util", "builtins", "struct", "io", "collections"}

#: place of six
PLACES = {"top": ("six.py", "six", ""), "vendored": ("v/six.py", "v.six", "v"), "deep": ("v/w/six.py", "v.w.six", "v.w"), "moves": ("moves/six.py", "moves.six", "moves"),
          "moves2": ("v/moves/six.py", "v.moves.six", "v.moves")}

FORMS = ("from", "fromas", "import", "importas", "in", "star", "try", "relative", "root", "two", "nested")
CONFIGS = ("plain", "before", "after", "other", "excl_target", "excl_name", "excl_moves", "excl_six", "imply_target", "imply_name",
           "hook", "twice")


def statement(form, moves, place_pkg, name):
    """source of the root for an import form, or None"""
    head, _, tail = f"{moves}.{name}".rpartition(".")
    if form == "from":
        return f"from {head} import {tail}\n"
    if form == "fromas":
        return f"from {head} import {tail} as zz\n"
    if form == "import":
        return f"import {moves}.{name}\n"
    if form == "importas":
        return f"import {moves}.{name} as zz\n"
    if form == "in":
        return f"from {moves}.{name} import zz\n"
    if form == "star":
        return f"from {moves}.{name} import *\n"
    if form == "try":
        return f"def g():\n  try:\n    from {head} import {tail}\n  except ImportError:\n    pass\n"
    if form == "two":
        return f"from {moves} import range, {tail}, zip as zz\n" if "." not in name else None
    if form == "nested":
        return f"class A:\n  def g(self):\n    from {head} import {tail}\n"
    if form == "relative":
        if not place_pkg:
            return None
        head = "." + head[len(place_pkg) + 1:]
        return f"from {head} import {tail}\n"
    if form == "root":
        return ""
    raise AssertionError(form)


def six_cases(tier):
    names = list(MODULES) + list(NESTED) + list(ATTRS) + UNKNOWN
    seen = set()

    def emit(*key):
        if key not in seen:
            seen.add(key)
            yield {"six": list(key)}

    for name, form, place in product(names, FORMS, PLACES):
        if place == "top" or form in ("from", "relative") and not place.startswith("moves") or (form, place) == ("from", "moves2") or tier == "thorough":
            yield from emit(place, form, name, "plain")
    for name, conf, form in product(names, CONFIGS, ("from", "import")):
        if form == "from" or conf in ("excl_target", "imply_name", "hook") or tier == "thorough":
            yield from emit("top", form, name, conf)
        if tier == "thorough":
            yield from emit("vendored", form, name, conf)
    for name, conf, form, place in product(
        ("reduce", "queue", "urllib.parse", "tkinter", "http_client", "range", "nope"), CONFIGS, FORMS, PLACES
    ):
        if name != "http_client" and (place in ("top", "vendored") or place == "deep" and form == "from") or tier == "thorough":
            yield from emit(place, form, name, conf)
    if tier == "thorough":
        for name, conf, form, place in product(names, CONFIGS, FORMS, PLACES):
            yield from emit(place, form, name, conf)
    pairs = ["queue", "reduce", "urllib", "urllib.parse", "urllib_parse", "BaseHTTPServer", "SimpleHTTPServer", "tkinter",
             "tkinter_dialog", "range", "nope", "builtins", "dbm_gnu", "StringIO"]
    for a, b in permutations(pairs, 2):
        for fa, fb in product(("from", "import"), repeat=2):
            yield {"pair": [a, b, fa, fb]}


def target_of(name):
    if name in MODULES:
        return MODULES[name], "module"
    if name in NESTED:
        return NESTED[name], "module"
    if name in ATTRS:
        return ATTRS[name], "attr"
    return None, "unknown"


_available = {}


def available(name):
    """can module *name* be located"""
    if name not in _available:
        try:
            _available[name] = importlib.util.find_spec(name) is not None
        except ImportError:
            _available[name] = False
    return _available[name]


_siblings = {}


def boundary(*keep):
    """names of the stdlib that are excluded to keep graphs small"""
    keep = {k for k in keep if k}
    tops = {k.partition(".")[0] for k in keep}
    out = {m for m in sys.stdlib_module_names if m not in tops}
    keep |= {k.rpartition(".")[0] for k in keep}
    for t in tops & {"email", "http", "xmlrpc", "urllib"}:
        if t not in _siblings:
            spec = importlib.util.find_spec(t)
            _siblings[t] = [f"{t}.{m.name}" for m in pkgutil.iter_modules(spec.submodule_search_locations)]
        out.update(m for m in _siblings[t] if m not in keep)
    return out


_base = {}


def subgraph(mg, start, root):
    """nodes and edges that can be reached from *start*"""
    c = canon(mg, root)
    out = {"nodes": {}, "edges": {}, "roots": []}
    todo = [start]
    succ = {}
    for e in c["edges"]:
        a, b = e.split(" -> ")
        succ.setdefault(a, []).append(e)
    while todo:
        x = todo.pop()
        if x in out["nodes"]:
            continue
        out["nodes"][x] = c["nodes"][x]
        for e in succ.get(x, ()):
            out["edges"][e] = c["edges"][e]
            todo.append(e.split(" -> ")[1])
    return out


def six_tree(place):
    file, mod, pkg = PLACES[place]
    tree = {"extra.py": "", "other.py": "", file: SIX}
    if pkg:
        tree["v/__init__.py"] = ""
        if pkg == "v.w":
            tree["v/w/__init__.py"] = ""
    return tree


class Provider:
    def __init__(self):
        self.calls = []

    def __call__(self, graph, importing, name):
        import modulegraph2

        self.calls.append(name)
        if name.partition(".")[0] == "tkinter":
            node = modulegraph2.VirtualNode(name, "extra")
            graph.add_node(node)
            return node
        return None


def run_six(case, env, res):
    place, form, name, conf = case["six"]
    file, mod, pkg = PLACES[place]
    moves = mod + ".moves"
    full = f"{moves}.{name}"
    target, kind = target_of(name)
    source = statement(form, moves, pkg, name)
    if source is None:
        res.outcome = ["six", "void"]
        return
    with env.case() as d:
        tree = six_tree(place)
        root = (pkg + "." if form == "relative" else "") + "r"
        if target is not None:
            if conf == "before":
                source = f"import {target}\n" + source
            elif conf == "after":
                source += f"import {target}\n"
        if conf == "other":
            source = f"from {moves} import StringIO\nfrom {moves} import socketserver, reduce as rr\n" + source
        elif conf == "twice":
            source = source + source + "import o2\n"
            tree["o2.py"] = source
        tree[root.replace(".", "/") + ".py"] = source + "import last\n"
        tree["last.py"] = ""
        write_tree(d, tree)
        keep = [target]
        if name == "urllib.nope":
            keep.append("urllib")
        if conf == "other":
            keep += ["io", "socketserver", "functools"]
        excludes = boundary(*keep)
        if conf == "excl_target" and target is not None:
            excludes.add(target)
        elif conf == "excl_name":
            excludes.add(full)
        elif conf == "excl_moves":
            excludes.add(moves)
        elif conf == "excl_six":
            excludes.add(mod)
        implies = {}
        if conf == "imply_target" and target is not None:
            implies = {target: ("extra",)}
        elif conf == "imply_name":
            implies = {full: ("extra",)}
        hook = Provider()

        def graph(*roots):
            mg = new_graph()
            mg.add_excludes(excludes)
            mg.add_implies(implies)
            if conf == "hook":
                mg.add_missing_hook(hook)
            for r in roots:
                mg.add_module(r)
            env.purge()
            return mg

        posts = []
        want = None
        if target is not None:
            # the same everywhere
            key = (target, conf if conf in ("imply_target", "hook", "excl_target", "other") else None)
            if key not in _base:
                _base[key] = subgraph(graph(target), target, d)
            want = _base[key]
        hook.calls.clear()
        mg = new_graph()
        mg.add_post_processing_hook(lambda g, n: posts.append(n.identifier))
        mg.add_excludes(excludes)
        mg.add_implies(implies)
        if conf == "hook":
            mg.add_missing_hook(hook)
        mg.add_module(root)
        if form == "root":
            mg.add_module(full)
        env.purge()
        live = reachable(mg)
        expect_eq(sorted(posts), sorted(n.identifier for n in mg.nodes()), "nodes passed to post processing hooks")
        expect("last" in live, "imports after the statement are missing")
        cut = {"excl_name": full, "excl_moves": moves, "excl_six": mod}.get(conf)
        if form in ("from", "fromas", "try", "nested", "relative") and name in NESTED and conf == "excl_name":
            # Names are loaded from the package that six.moves.urllib refers to
            cut = None
        if conf == "excl_target" and target is not None and target.partition(".")[0] == mod.partition(".")[0]:
            cut = mod
        if cut is not None and (kind == "module" or conf != "excl_name" or form not in ("from", "fromas", "relative", "try", "two", "nested")):
            # The name has a parent that's excluded
            expect_eq(cls(mg, cut), "ExcludedModule", f"class of {cut}")
            if True:
                expect(target is None or edge_infos(mg, full, target) is None, "edge from an excluded name")
            if target is not None:
                if target not in SIX_IMPORTS:
                    expect(target not in live, f"{target} is in the graph, only used through an excluded name")
            res.outcome = ["six", kind, "cut"]
        elif kind == "module":
            # the module is used under another name
            direct = form in ("from", "fromas", "relative", "try", "nested") and name in NESTED
            if not direct:
                expect_eq(cls(mg, full), "AliasNode", f"class of {full}")
                expect_eq(str(mg.find_node(full).actual_module), target, "actual_module")
                expect(edge_infos(mg, full, target) == {(False, True, False, None)}, f"edge to the actual module: {edge_infos(mg, full, target)}")
                expect(edge_infos(mg, full, full.rpartition(".")[0]), "edge to the package")
            expect(target in live, f"{target} is not reachable")
            got = subgraph(mg, target, d)
            delta = diff_canon(got, want)
            expect(not delta, f"{target} is not the same as when imported by its own name: {delta}")
            if conf == "imply_name" and not direct:
                expect(edge_infos(mg, full, "extra") is not None, "implied action for the name")
            if conf == "hook":
                expect(hook.calls.count(target) == (0 if available(target) else 1) or not available(target.rpartition(".")[0] or target),
                       f"missing hook called for {hook.calls}")
            else:
                expect_eq(cls(mg, target), want["nodes"][target]["class"], "class of target")
            res.outcome = ["six", kind, cls(mg, target)]
        elif kind == "attr":
            if form in ("import", "importas", "in", "star", "root"):
                # This is an ImportError at runtime
                expect_eq(cls(mg, full), "MissingModule", f"class of {full}") if conf != "excl_name" else None
                if conf == "imply_name":
                    expect("extra" in live, "implied action")
            else:
                expect(full not in live or conf in ("excl_name", "imply_name"), f"{full} is an attribute, not a module")
                if conf == "excl_name":
                    if target != "builtins":
                        expect_eq(cls(mg, full), "ExcludedModule", f"class of {full}")
                elif target != "builtins":
                    expect(target in live, f"{target} is not reachable")
                    got = subgraph(mg, target, d)
                    delta = diff_canon(got, want)
                    expect(not delta, f"{target} is not the same as when imported by its own name: {delta}")
                    infos = edge_infos(mg, root, target)
                    expect(infos, "edge to the module of the attribute")
                    if form == "try":
                        expect((True, False, False, None) in infos, f"edge to the module of an attribute: {infos}")
            res.outcome = ["six", kind]
        else:
            if conf == "excl_name":
                if name != "urllib.nope":
                    expect_eq(cls(mg, full), "ExcludedModule", f"class of {full}")
            elif conf != "imply_name":
                cname = full
                if name == "urllib.nope" and form in ("from", "fromas", "try", "nested", "relative"):
                    cname = "urllib.nope"
                expect_eq(cls(mg, cname), "MissingModule", f"class of unknown name {cname}")
            res.outcome = ["six", kind]
        if cut is None or conf == "excl_name":
            expect_eq(cls(mg, moves), "Package", "class of six.moves")
            expect(edge_infos(mg, moves, mod), "edge from six.moves to six")
            expect_eq(cls(mg, mod), "SourceModule", "class of six")
            # nothing but unknown names and modules that are not available is missing
            for n in mg.nodes():
                if type(n).__name__ == "MissingModule" and n.identifier in live and n.identifier.startswith("six"):
                    expect(kind == "unknown" or kind == "attr" and form in ("import", "importas", "in", "star", "root"),
                           f"missing module {n.identifier}")
        # conformance: the table in this file is the one in six
        if conf == "plain" and form == "from":
            conform(name, kind, target, mod)
        res.step(len(list(mg.nodes())))
        res.state(canon(mg, d))


def conform(name, kind, target, mod):
    six = importlib.import_module(mod)
    table = {x.name: x for x in six._moved_attributes}
    if kind == "module" and name in MODULES and name != "urllib":
        expect_eq(table[name].mod, target, "harness: target of the name")
    elif kind == "attr":
        m = table[name].mod
        expect(m == target or getattr(sys.modules.get(m), table[name].attr, 1) is getattr(sys.modules.get(target), table[name].attr, 2)
               or {m, target} <= {"collections", "os", "io", "subprocess"}, f"harness: target of the name: {m}")
        getattr(importlib.import_module(m), table[name].attr)
    elif name in NESTED:
        importlib.import_module(f"{mod}.moves.{name}")
    elif kind == "unknown":
        try:
            importlib.import_module(f"{mod}.moves.{name}")
        except (ImportError, AttributeError):
            pass
        else:
            expect(False, f"harness: {name} exists")


def run_pair(case, env, res):
    a, b, fa, fb = case["pair"]
    with env.case() as d:
        tree = six_tree("top")
        sa, sb = (statement(f, "six.moves", "", n) for f, n in ((fa, a), (fb, b)))
        tree["r.py"] = sa + sb
        tree["q.py"] = sb
        tree["s.py"] = sa
        write_tree(d, tree)
        keep = [target_of(a)[0], target_of(b)[0]]

        def graph(*roots):
            mg = new_graph()
            mg.add_excludes(boundary(*keep))
            for r in roots:
                mg.add_module(r)
            env.purge()
            return mg

        x, y, z = graph("r"), graph("q"), graph("s")
        live = reachable(x)
        expect_eq(sorted(live - {"r"}), sorted((reachable(y) | reachable(z)) - {"q", "s"}), "reachable nodes for two statements")
        for other in (y, z):
            for n in reachable(other) - {"q", "s"}:
                expect_eq(cls(x, n), cls(other, n), f"class of {n}")
        res.step(len(live))
        res.state(canon(x, d))
    res.outcome = ["pair"]


# ------------------------------------------------------------------ vendored

VENDOR = '''
import importlib.util
import sys


class VendorImporter:
    def __init__(self, root_name, vendored_names=(), vendor_pkg=None):
        self.root_name = root_name
        self.vendored_names = set(vendored_names)
        self.vendor_pkg = vendor_pkg or root_name.replace('extern', '_vendor')

    @property
    def search_path(self):
        yield self.vendor_pkg + '.'
        yield ''

    def _module_matches_namespace(self, fullname):
        root, base, target = fullname.partition(self.root_name + '.')
        return not root and any(map(target.startswith, self.vendored_names))

    def load_module(self, fullname):
        root, base, target = fullname.partition(self.root_name + '.')
        for prefix in self.search_path:
            try:
                extant = prefix + target
                __import__(extant)
                mod = sys.modules[extant]
                sys.modules[fullname] = mod
                return mod
            except ImportError:
                pass
        else:
            raise ImportError("The '{target}' package is required".format(**locals()))

    def create_module(self, spec):
        return self.load_module(spec.name)

    def exec_module(self, module):
        pass

    def find_spec(self, fullname, path=None, target=None):
        return (
            importlib.util.spec_from_loader(fullname, self)
            if self._module_matches_namespace(fullname)
            else None
        )

    def install(self):
        if self not in sys.meta_path:
            sys.meta_path.append(self)


names = ('pak', 'mm', 'nosuch')
VendorImporter(__name__, names%s).install()
'''

#: content of the vendored library and of the toplevel library
LIB = {
    "none": {},
    "pkg": {"pak/__init__.py": "from . import sub\n", "pak/sub.py": "import dep\n", "pak/deep/__init__.py": "", "pak/deep/x.py": "",
            "mm.py": "import dep\n"},
    "flat": {"pak/__init__.py": "", "pak/sub.py": "", "mm.py": ""},
    "raise": {"pak/__init__.py": "raise ValueError\n", "pak/sub.py": "", "mm.py": "raise ValueError\n"},
    "exit": {"pak/__init__.py": "raise SystemExit\n", "pak/sub.py": "", "mm.py": "raise SystemExit\n"},
    "bad": {"pak/__init__.py": "if if\n", "pak/sub.py": "", "mm.py": "if if\n"},
    "ns": {"pak/sub.py": "import dep\n", "mm/x.py": ""},
    "badsub": {"pak/__init__.py": "", "pak/sub.py": "raise ImportError\n", "mm.py": "import nothere\n"},
}
USES = {
    "pak": ("import {e}.pak\n", ["pak"]),
    "frompak": ("from {e} import pak\n", ["pak"]),
    "fromboth": ("from {e} import pak, mm\n", ["pak", "mm"]),
    "sub": ("import {e}.pak.sub\n", ["pak", "pak.sub"]),
    "fromsub": ("from {e}.pak import sub\n", ["pak", "pak.sub"]),
    "insub": ("from {e}.pak.sub import name\n", ["pak", "pak.sub"]),
    "mm": ("import {e}.mm as zz\n", ["mm"]),
    "star": ("from {e}.pak import *\n", ["pak"]),
    "nosuch": ("import {e}.nosuch\n", ["nosuch"]),
    "foreign": ("import {e}.foreign\n", ["foreign"]),
    "nosub": ("import {e}.pak.nosub\n", ["pak", "pak.nosub"]),
    "deep": ("import {e}.pak.deep.x\n", ["pak", "pak.deep", "pak.deep.x"]),
    "rel": ("from .extern import pak\nfrom .extern.pak import sub\n", ["pak", "pak.sub"]),
    "order": ("import {v}.pak\nimport {e}.pak.sub\nimport pak\n", ["pak", "pak.sub"]),
    "order2": ("import pak\nimport {e}.pak.sub\nimport {v}.pak\n", ["pak", "pak.sub"]),
}


def vendor_cases(tier):
    for base, vend, top, use, explicit in product(
        ("setuptools", "pkg_resources"), LIB, LIB, USES, (False, True)
    ):
        yield {"vendor": [base, vend, top, use, explicit]}
    for base, vend, top, use in product(("setuptools", "pkg_resources"), ("none", "pkg", "raise"), ("none", "pkg"), USES):
        for conf in ("excl_e", "excl_v", "excl_vpak", "excl_pak", "excl_epak", "imply"):
            yield {"vendor": [base, vend, top, use, True], "conf": conf}


def run_vendor(case, env, res):
    base, vend, top, use, explicit = case["vendor"]
    conf = case.get("conf")
    vname = "_vendor" if explicit else "_vendor"
    with env.case() as d:
        pkg = base
        ext, ven = f"{pkg}.extern", f"{pkg}.{vname}"
        tree = {f"{pkg}/__init__.py": "", f"{pkg}/extern/__init__.py": VENDOR % (f", {ven!r}" if explicit else ""),
                "dep.py": "", "last.py": "", "x.py": ""}
        if vend != "none" or top == "none":
            tree[f"{pkg}/{vname}/__init__.py"] = ""
        tree.update({f"{pkg}/{vname}/{k}": v for k, v in LIB[vend].items()})
        tree.update(LIB[top])
        text, names = USES[use]
        root = f"{pkg}.r" if use == "rel" else "r"
        tree[root.replace(".", "/") + ".py"] = text.format(e=ext, v=ven) + "import last\n"
        write_tree(d, tree)
        # what is really imported
        real = {}
        for n in names:
            try:
                real[n] = importlib.import_module(f"{ext}.{n}").__name__
            except ImportError:
                real[n] = None
            except (Exception, SystemExit) as exc:
                real[n] = exc
        env.purge()
        mg = new_graph()
        mg.add_excludes(boundary())
        excl = {"excl_e": ext, "excl_v": ven, "excl_vpak": f"{ven}.pak", "excl_pak": "pak", "excl_epak": f"{ext}.pak"}.get(conf)
        if excl:
            mg.add_excludes([excl])
        if conf == "imply":
            mg.add_implies({f"{ven}.pak": ("x",), "pak": ("x",)})
        posts = []
        mg.add_post_processing_hook(lambda g, n: posts.append(n.identifier))
        mg.add_module(root)
        env.purge()
        live = reachable(mg)
        expect("last" in live, "imports after the statement are missing")
        expect_eq(sorted(posts), sorted(n.identifier for n in mg.nodes()), "nodes passed to post processing hooks")
        kinds = []
        if conf is None:
            for n in names:
                name = f"{ext}.{n}"
                want = real[n]
                kinds.append("missing" if want is None else type(want).__name__)
                if isinstance(want, BaseException):
                    # static analysis: the name leads to one of the modules
                    if n in ("pak", "mm"):
                        expect_eq(cls(mg, name), "AliasNode", f"class of {name}")
                        expect(str(mg.find_node(name).actual_module) in (f"{ven}.{n}", n), f"actual_module of {name}")
                    continue
                if vend == "badsub" and n == "mm":
                    # vendored, but importing it fails
                    want = f"{ven}.mm"
                if cls(mg, name) is None and n == "pak.sub" and use in ("fromsub", "rel"):
                    if want is None:
                        continue
                    # names are loaded from the package an alias refers to
                    expect(any(f"{x}.pak.sub" in live for x in (ven, "")) or f"{ven}.pak.sub" in live or "pak.sub" in live, f"{name} is not reachable")
                    continue
                if want is None:
                    # the importer imports the library, the module is still part of it
                    static = vend != "none" and vend not in ("ns",) and n in ("pak", "mm") or n == "pak.sub"
                    if not static:
                        node = follow(mg, name)
                        expect(cls(mg, node) in ("MissingModule", "SourceModule", "Package", "NamespacePackage", "InvalidModule"), f"{name} is {cls(mg, node)}")
                        if n in ("nosuch", "foreign", "pak.nosub"):
                            expect_eq(cls(mg, node), "MissingModule", f"class of {name}")
                    continue
                node = follow(mg, name)
                expect_eq(node, want, f"module that is used as {name}")
                expect(node in live, f"{node} is not reachable")
                if "dep" in tree_text(tree, node):
                    expect("dep" in live, "dependency of a vendored module")
        elif excl and cls(mg, excl) is not None and cls(mg, excl.rpartition(".")[0]) != "MissingModule":
            expect_eq(cls(mg, excl), "ExcludedModule", f"class of {excl}")
            for src, dst, data in mg.edges():
                if src.identifier == excl:
                    expect(excl.startswith(dst.identifier + "."), f"edge from an excluded module to {dst.identifier}")
            for n in live:
                if n.startswith(excl + "."):
                    expect_eq(cls(mg, n), "ExcludedModule", f"class of {n}")
        elif conf == "imply":
            if any(n in live for n in (f"{ven}.pak", "pak")):
                expect("x" in live, "implied action for the actual module")
        res.step(len(posts))
        res.state(canon(mg, d))
    res.outcome = ["vendor", conf, kinds]


def tree_text(tree, name):
    p = name.replace(".", "/")
    return str(tree.get(p + ".py", tree.get(p + "/__init__.py", "")))


def follow(mg, name):
    node = mg.find_node(name)
    expect(node is not None, f"{name} is not in the graph")
    while type(node).__name__ == "AliasNode":
        expect(edge_infos(mg, node.identifier, node.actual_module), f"no edge from {node.identifier} to {node.actual_module}")
        node = mg.find_node(str(node.actual_module))
        expect(node is not None, f"{name} leads to nothing")
    return node.identifier


# ------------------------------------------------------------------ distutils

HACK = '''
import sys


class DistutilsMetaFinder:
    def find_spec(self, fullname, path, target=None):
        if path is not None and not fullname.startswith('test.'):
            return None
        if fullname != "distutils":
            return None
        import importlib
        import importlib.abc
        import importlib.util

        try:
            mod = importlib.import_module('setuptools._distutils')
        except Exception:
            return None

        class DistutilsLoader(importlib.abc.Loader):
            def create_module(self, spec):
                mod.__name__ = 'distutils'
                return mod

            def exec_module(self, module):
                pass

        return importlib.util.spec_from_loader(
            'distutils', DistutilsLoader(), origin=mod.__file__
        )


sys.meta_path.insert(0, DistutilsMetaFinder())
'''
SETUPTOOLS = {
    "ok": {"setuptools/__init__.py": "", "setuptools/_distutils/__init__.py": "import dep\n"},
    "uses": {"setuptools/__init__.py": "import distutils.core\n", "setuptools/_distutils/__init__.py": "import dep\n"},
    "badcmd": {"setuptools/__init__.py": "import distutils.core\n", "setuptools/_distutils/__init__.py": "import dep\n"},
    "raise": {"setuptools/__init__.py": "raise ValueError\n", "setuptools/_distutils/__init__.py": ""},
    "exit": {"setuptools/__init__.py": "", "setuptools/_distutils/__init__.py": "raise ValueError\n"},
    "old": {"setuptools/__init__.py": ""},
    "none": {},
    "stdlib": {"distutils/__init__.py": "import dep\n", "distutils/core.py": "import dep\n", "distutils/command/__init__.py": "",
               "distutils/command/build.py": "", "distutils/cmd.py": ""},
    "both": {"setuptools/__init__.py": "", "setuptools/_distutils/__init__.py": "import dep\n", "distutils/__init__.py": "",
             "distutils/core.py": ""},
}
DUSES = {
    "d": ("import distutils\n", ["distutils"]),
    "core": ("import distutils.core\n", ["distutils", "distutils.core"]),
    "from": ("from distutils import core\n", ["distutils", "distutils.core"]),
    "build": ("from distutils.command.build import build\n", ["distutils", "distutils.command", "distutils.command.build"]),
    "frombuild": ("from distutils.command import build\n", ["distutils", "distutils.command", "distutils.command.build"]),
    "nope": ("import distutils.nope\n", ["distutils", "distutils.nope"]),
    "real": ("import setuptools._distutils.core\n", ["setuptools._distutils", "setuptools._distutils.core"]),
    "setuptools": ("import setuptools\nimport distutils.core\n", ["setuptools", "distutils", "distutils.core"]),
    "after": ("import distutils.core\nimport setuptools._distutils.cmd\n", ["distutils", "distutils.core", "setuptools._distutils.cmd"]),
    "before": ("import setuptools._distutils.cmd\nimport distutils.core\n", ["distutils", "distutils.core", "setuptools._distutils.cmd"]),
    "star": ("from distutils.core import *\n", ["distutils", "distutils.core"]),
}
DCONF = ("plain", "excl_d", "excl_core", "excl_s", "excl_sd", "imply_d", "imply_sd", "nohack", "loaded")


def distutils_cases(tier):
    for s, u, c in product(SETUPTOOLS, DUSES, DCONF):
        yield {"distutils": [s, u, c]}


def run_distutils(case, env, res):
    which, use, conf = case["distutils"]
    with env.case() as d:
        tree = {"dep.py": "", "last.py": "", "x.py": "", "_distutils_hack/__init__.py": HACK}
        tree.update(SETUPTOOLS[which])
        if "setuptools/_distutils/__init__.py" in tree:
            tree.update({
                "setuptools/_distutils/core.py": "import dep\nfrom distutils.cmd import Command\n",
                "setuptools/_distutils/cmd.py": "Command = 1\n" if which != "badcmd" else "", "setuptools/_distutils/command/__init__.py": "",
                "setuptools/_distutils/command/build.py": "from ..cmd import Command\n",
            })
        text, names = DUSES[use]
        tree["r.py"] = text + "import last\n"
        write_tree(d, tree)

        def prepare():
            env.purge()
            for n in list(sys.modules):
                if n.partition(".")[0] in ("_distutils_hack", "setuptools", "distutils", "dep"):
                    del sys.modules[n]
            sys.meta_path[:] = [f for f in sys.meta_path if type(f).__name__ != "DistutilsMetaFinder"]
            importlib.invalidate_caches()
            if conf != "nohack":
                importlib.import_module("_distutils_hack")
            if conf == "loaded":
                try:
                    importlib.import_module("distutils.core")
                except (ImportError, ValueError):
                    pass

        prepare()
        real = {}
        for n in names:
            try:
                real[n] = importlib.import_module(n).__file__
            except Exception:
                real[n] = None
        prepare()
        mg = new_graph()
        mg.add_excludes(boundary("distutils"))
        excl = {"excl_d": "distutils", "excl_core": "distutils.core", "excl_s": "setuptools", "excl_sd": "setuptools._distutils"}.get(conf)
        if excl:
            mg.add_excludes([excl])
        if conf == "imply_d":
            mg.add_implies({"distutils": ("x",)})
        elif conf == "imply_sd":
            mg.add_implies({"setuptools._distutils": ("x",)})
        posts = []
        mg.add_post_processing_hook(lambda g, n: posts.append(n.identifier))
        mg.add_module("r")
        env.purge()
        live = reachable(mg)
        expect("last" in live, "imports after the statement are missing")
        expect_eq(sorted(posts), sorted(n.identifier for n in mg.nodes()), "nodes passed to post processing hooks")
        kinds = []
        for n in names:
            if excl is not None:
                if cls(mg, excl) is not None and cls(mg, excl.rpartition(".")[0]) != "MissingModule":
                    expect_eq(cls(mg, excl), "ExcludedModule", f"class of {excl}")
                    if cls(mg, n) is None and use in ("from", "frombuild"):
                        continue
                    if n == excl or n.startswith(excl + "."):
                        expect_eq(cls(mg, n), "ExcludedModule", f"class of {n}")
                continue
            if real[n] is None or which == "badcmd":
                kinds.append(cls(mg, n))
                continue
            name = n
            if use == "from" and n == "distutils.core" and cls(mg, n) is None or use == "frombuild" and cls(mg, n) is None:
                name = "setuptools._" + n
            node = mg.find_node(follow(mg, name))
            file = getattr(node, "init_module", node).filename
            if hasattr(node, "init_module"):
                file = node.filename / "__init__.py"
            expect_eq(str(file), real[n], f"file of {n}")
            expect(node.identifier in live, f"{n} is not reachable")
            if "import dep" in tree_text(tree, os.path.relpath(real[n], d)[:-3].replace("/__init__", "").replace("/", ".")):
                expect("dep" in live, "dependency of a module")
            kinds.append(cls(mg, name))
        if conf == "imply_d" or conf == "imply_sd" and cls(mg, "setuptools._distutils") not in (None, "MissingModule"):
            if conf == "imply_sd" or any(n.startswith("distutils") for n in names):
                expect("x" in live, "implied action")
        res.step(len(posts))
        res.state(canon(mg, d))
    res.outcome = ["distutils", conf, kinds]


# ------------------------------------------------------------------ namespaces

PKG_RESOURCES = '''
import sys
import os


def declare_namespace(name):
    m = sys.modules[name]
    for p in sys.path:
        q = os.path.join(p, *name.split("."))
        if os.path.isfile(os.path.join(q, "__init__.py")) and q not in m.__path__:
            m.__path__.append(q)
'''
NSFORM = {
    "pkgutil": "__path__ = __import__('pkgutil').extend_path(__path__, __name__)\n",
    "pkgutilcomment": "# a namespace\n__path__ = __import__('pkgutil').extend_path(__path__, __name__)  # NOQA\nX = 1\n",
    "resources": "__import__('pkg_resources').declare_namespace(__name__)\n",
    "tryresources": "try:\n    __import__('pkg_resources').declare_namespace(__name__)\nexcept ImportError:\n"
                    "    __path__ = __import__('pkgutil').extend_path(__path__, __name__)\n",
    "fromboth": "try:\n    import pkg_resources\n    pkg_resources.declare_namespace(__name__)\nexcept ImportError:\n"
                "    import pkgutil\n    __path__ = pkgutil.extend_path(__path__, __name__)\n",
    "frompkgutil": "from pkgutil import extend_path\n__path__ = extend_path(__path__, __name__)\n",
    "importpkgutil": "import pkgutil\n__path__ = pkgutil.extend_path(__path__, __name__)\n",
    "regular": "",
    "implicit": None,
    "mention": "# __import__('pkgutil') is not used\n",
    "otherimport": "X = __import__('x')\n# pkgutil\n",
}


def ns_cases(tier):
    for form, other in product(NSFORM, NSFORM):
        for order in ("ab", "ba"):
            for depth in (1, 2):
                for pr in (True, False):
                    yield {"ns": [form, other, order, depth, pr]}


def run_ns(case, env, res):
    form, other, order, depth, pr = case["ns"]
    name = ".".join(["n1", "n2"][:depth])
    with env.case(subdirs=[order[0], order[1], "lib"]) as d:
        tree = {"lib/x.py": "", "lib/last.py": ""}
        if pr:
            tree["lib/pkg_resources.py"] = PKG_RESOURCES
        for side, f, sub in (("a", form, "ma"), ("b", other, "mb")):
            for k in range(1, depth + 1):
                p = f"{side}/" + "/".join(["n1", "n2"][:k])
                if NSFORM[f] is not None:
                    tree[p + "/__init__.py"] = NSFORM[f]
            tree[p + f"/{sub}.py"] = "import x\n"
        tree["lib/r.py"] = f"import {name}.ma\nimport {name}.mb\nimport last\n"
        write_tree(d, tree)
        real = {}
        for n in ["n1", "n1.n2"][:depth]:
            try:
                real[n] = list(importlib.import_module(n).__path__)
            except Exception:
                real[n] = None
        for n in (f"{name}.ma", f"{name}.mb"):
            try:
                real[n] = importlib.import_module(n).__file__
            except Exception:
                real[n] = None
        env.purge()
        mg = new_graph()
        mg.add_excludes(boundary("pkgutil") - {"pkgutil"})
        mg.add_module("r")
        env.purge()
        live = reachable(mg)
        expect("last" in live, "imports after the statement are missing")
        kinds = []
        for n in ["n1", "n1.n2"][:depth]:
            node = mg.find_node(n)
            kinds.append(cls(mg, n))
            if real[n] is None:
                continue
            expect(type(node).__name__ in ("Package", "NamespacePackage"), f"class of {n}: {cls(mg, n)}")
            expect_eq([str(x) for x in node.search_path], real[n], f"search_path of {n}")
            if type(node).__name__ == "Package":
                text = (node.filename / "__init__.py").read_text()
                explicit = None
                if "__path__" in text or "declare_namespace" in text:
                    explicit = "pkg_resources" if "pkg_resources" in text else "pkgutil"
                expect(node.namespace_type == explicit or text.startswith("X = __import__"), f"namespace_type of {n} is {node.namespace_type}")
                if explicit:
                    expect(edge_infos(mg, n, explicit) is not None, f"edge from {n} to {explicit}")
        for n in (f"{name}.ma", f"{name}.mb"):
            if real[n] is not None:
                expect_eq(cls(mg, n), "SourceModule", f"class of {n}")
                expect_eq(str(mg.find_node(n).filename), real[n], f"file of {n}")
                expect(edge_infos(mg, n, "x") and edge_infos(mg, n, name), f"edges of {n}")
            elif real[name] is not None:
                expect_eq(cls(mg, n), "MissingModule", f"class of {n}")
        res.step(len(live))
        res.state(canon(mg, d))
    res.outcome = ["ns", kinds]


# ------------------------------------------------------------------ aliases in sys.modules

ALIAS = {
    "mod": "import sys\nimport t.real\nsys.modules['{a}'] = t.real\n",
    "pkg": "import sys\nimport t\nsys.modules['{a}'] = t\n",
    "stdlib": "import sys\nimport posixpath\nsys.modules['{a}'] = posixpath\n",
    "self": "import sys\nsys.modules['{a}'] = sys.modules[__name__]\n",
    "new": "import sys, types\nsys.modules['{a}'] = types.ModuleType('{a}')\n",
    "object": "import sys\nsys.modules['{a}'] = object()\n",
    "none": "import sys\nsys.modules['{a}'] = None\n",
    "from": "import sys\nfrom t import real\nsys.modules['{a}'] = real\n",
    "nospec": "import sys\nimport t.real\nt.real.__spec__ = None\nsys.modules['{a}'] = t.real\n",
    "chain": "import sys\nimport t.real\nsys.modules['{a}'] = t.real\nsys.modules['{a}2'] = sys.modules['{a}']\n",
}
AUSES = {
    "import": "import {p}.{t}\n",
    "from": "from {p} import {t}\n",
    "in": "from {p}.{t} import v\n",
    "sub": "import {p}.{t}.leaf\n",
    "late": "import t.real\nimport {p}.{t}\n",
    "early": "import {p}.{t}\nimport t.real\n",
}


def alias_cases(tier):
    for kind, use, exists, p in product(ALIAS, AUSES, (False, True), ("o", "o.q")):
        yield {"alias": [kind, use, exists, p]}


def run_alias(case, env, res):
    kind, use, exists, p = case["alias"]
    with env.case() as d:
        tree = {"t/__init__.py": "", "t/real.py": "import x\n", "t/leaf.py": "", "x.py": "", "last.py": "", "o/__init__.py": "", "o/q/__init__.py": ""}
        pre = f"{p}.alias"
        tree[p.replace(".", "/") + "/__init__.py"] = ALIAS[kind].format(a=pre)
        if exists:
            tree[p.replace(".", "/") + "/alias.py"] = "import x\n"
        tree["r.py"] = AUSES[use].format(p=p, t="alias") + "import last\n"
        write_tree(d, tree)
        try:
            m = importlib.import_module(pre)
            real = m.__name__, m.__spec__.name
        except Exception:
            real = None
        env.purge()
        mg = new_graph()
        mg.add_excludes(boundary("posixpath"))
        mg.add_module("r")
        env.purge()
        live = reachable(mg)
        expect("last" in live, "imports after the statement are missing")
        if real is not None and real[0] == real[1] and use != "from":
            want = real[1]
            expect_eq(follow(mg, pre), want, f"module that is used as {pre}")
            expect(want in live, f"{want} is not reachable")
        elif real is None and not exists and kind not in ("nospec", "new", "object"):
            expect_eq(cls(mg, pre), "MissingModule", f"class of {pre}")
        res.step(len(live))
        res.state(canon(mg, d))
    res.outcome = ["alias", kind, cls(mg, pre)]


# ------------------------------------------------------------------


def BOUND(tier):
    return (
        f"six: {len(MODULES) + len(NESTED)} modules, {len(ATTRS)} attributes and {len(UNKNOWN)} unknown names x {len(FORMS)} import forms x "
        f"{len(PLACES)} places of six, x {len(CONFIGS)} configurations (excludes, implies, hooks, other imports) for "
        + ("1 or 2 forms and for 6 names in all forms" if tier == "quick" else "all forms and places")
        + ", pairs of 14 names x 2 forms each; setuptools.extern and pkg_resources.extern: "
        f"{len(LIB)} vendored x {len(LIB)} toplevel libraries x {len(USES)} uses x 2 importers, and 6 configurations; "
        f"distutils: {len(SETUPTOOLS)} installations x {len(DUSES)} uses x {len(DCONF)} configurations; explicit namespaces: {len(NSFORM)}^2 forms x order x "
        f"depth x pkg_resources installed or not; sys.modules aliases: {len(ALIAS)} kinds x {len(AUSES)} uses x shadowed file x depth. "
        "Oracle: the modules that Python really imports for the names"
    )


def cases(tier):
    yield from six_cases(tier)
    yield from vendor_cases(tier)
    yield from distutils_cases(tier)
    yield from ns_cases(tier)
    yield from alias_cases(tier)


def run_case(case, env):
    res = Result()
    for k, f in (("six", run_six), ("pair", run_pair), ("vendor", run_vendor), ("distutils", run_distutils), ("ns", run_ns),
                 ("alias", run_alias)):
        if k in case:
            f(case, env, res)
            break
    return res
