"""
C28: the graph does not depend on the state of the process that builds it.
"""
import contextlib
import importlib
import io
import json
import os
import subprocess
import sys
import warnings

from .. import histories as H, projects as P
from ..core import REPO, Result, expect
from ..util import canon, diff_canon, modname, new_graph, write_tree, zip_tree
from . import c16_robust as C16, c26_importers as C26, c27_stdlib as C27

PROPERTY = "C28"
TITLE = "the graph does not depend on the state of the process that builds it"
ASSUMPTIONS = [
    "modules were imported from the same search path, and do not replace other modules or importers when they are imported",
    "modules that block imports (None in sys.modules) or that replaced themselves by objects without a valid spec are not looked at",
]

#: warning filters
FILTERS = ("ignore", "error", "always", "once")
#: source with warnings from the parser, the compiler, and at run time
WARN = {
    "escape": 'w1 = "\\d"\n',
    "is": "w1 = 1 is 1\n",
    "assert": "assert (1, 2)\n",
    "call": "w1 = lambda: 1()\n",
    "decimal": "w1 = 1if 1else 2\n",
    "user": "import sys\nsys.modules['warnings'].warn('x')\n",
    "deprecated": "import sys\nsys.modules['warnings'].warn('x', DeprecationWarning)\n",
    "bytes": "w1 = b'\\d'\n",
    "index": "w1 = lambda: [1](2)\n",
    "filter": "import sys\nsys.modules['warnings'].simplefilter('error')\nw1 = '\\d'\n",
}
#: how the module with warnings gets into the graph
FORMS = ("module", "package", "parent", "script", "source", "mypyc", "zip", "explicit", "pkgres")
#: behaviours of packages that leave something in sys.modules that is no module
NO_MODULE = {"none-self", "other-self", "raising-self", "spec-str"}

#: chunks of the standard library that are imported together
CHUNKS = 16


def BOUND(tier):
    return (
        "project universe of C04 (root statement, pairs of root statements, root statement x one statement in one other file"
        + (", root x statements in two other files" if tier == "thorough" else "")
        + ") x what was imported before: every module that the program uses, all of them in both orders, the program itself, "
        "all of them with the packages, or the modules, removed from sys.modules, the same between two operations on the graph, with other warning filters, "
        f"from another directory, with byte code caches; {len(C16.BEHAVE) - len(NO_MODULE)} behaviours of a module or package that is imported before; "
        f"{len(WARN)} sources with warnings x {len(FORMS)} ways to get in the graph x filters {', '.join(FILTERS)}; "
        f"every name in six.moves that was used before; API operations of C08 after the files of the program were imported; "
        f"all modules of the standard library, after each of {CHUNKS} parts of it and all of it were imported"
    )


def cases(tier):
    for k in list(range(CHUNKS)) + ["all"]:
        yield {"stdlib": k}
    for name in list(C26.MODULES) + list(C26.NESTED) + list(C26.ATTRS):
        yield {"six": name}
    for b in C16.BEHAVE:
        if b not in NO_MODULE:
            for where in ("mod", "pkg"):
                yield {"behave": b, "where": where}
    for w in WARN:
        for f in FORMS:
            yield {"warn": w, "form": f}
    for op in H.FILES:
        if op.endswith(".py") and op.count("/") < 2:
            yield {"history": op}
    for c in P.enum_projects(tier):
        n = len(c)
        if tier == "quick" and (n > 2 or (n > 1 and any(len(st) > 1 for st in c.values()))):
            continue
        yield {"proj": c}


def relevant(case):
    return "proj" not in case or P.relevant(case["proj"])


@contextlib.contextmanager
def import_state():
    """Undo what real imports did to modules that were there before"""
    saved = {n: (m, {k: m.__dict__[k] for k in ("__spec__", "__loader__", "__package__", "__path__") if k in m.__dict__})
             for n, m in list(sys.modules.items()) if isinstance(m, type(sys))}
    cwd = os.getcwd()
    try:
        with warnings.catch_warnings():
            yield
    finally:
        os.chdir(cwd)
        for n, (m, attrs) in saved.items():
            m.__dict__.update(attrs)
            sys.modules[n] = m


def real(names):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        for n in names:
            try:
                importlib.import_module(n)
            except (Exception, SystemExit):
                pass


def build(d, roots=("r",)):
    mg = new_graph()
    for r in roots:
        mg.add_module(r)
    return canon(mg, d)


def compare(what, got, want):
    delta = diff_canon(got, want)
    expect(not delta, f"{what}: the graph is different: {delta}")


def run_case(case, env):
    res = Result()
    for k, f in (("proj", projects), ("behave", behave), ("warn", warned), ("six", six), ("history", history), ("stdlib", stdlib)):
        if k in case:
            with import_state():
                f(case, env, res)
            return res
    raise AssertionError(case)


# ------------------------------------------------------------------ projects


def states(names):
    """(description, modules to import, keys to remove from sys.modules)"""
    order = sorted(names)
    yield "all modules were imported", order, ()
    yield "all modules were imported in the other order", order[::-1], ()
    yield "the program was run", ["r"], ()
    pk = [n for n in order if any(x.startswith(n + ".") for x in order)]
    if pk:
        yield "all modules were imported, packages were removed", order, pk
        yield "all modules were imported, only packages are left", order, [n for n in order if n not in pk]
    for n in order:
        if n != "r":
            yield f"{n} was imported", [n], ()


def projects(case, env, res):
    mods = P.project(case["proj"])
    res.traces = 0
    with env.case() as d:
        write_tree(d, P.tree(mods))
        want = build(d)
        env.purge()
        names = sorted(n for n in want["nodes"] if n in mods or n == "ns" or any(m.startswith(n + ".") for m in mods))
        for what, pre, drop in states(names):
            real(pre)
            for n in drop:
                sys.modules.pop(n, None)
            compare(what, build(d), want)
            env.purge()
            res.step()
            res.traces += 1
        # between two operations
        mg = new_graph()
        mg.add_module("a")
        real(names)
        mg.add_module("r")
        got = canon(mg, d)
        env.purge()
        want2 = build(d, ("a", "r"))
        env.purge()
        compare("all modules were imported while the graph was built", got, want2)
        # removed from sys.modules while the graph was built
        mg = new_graph()
        mg.add_module("a")
        env.purge()
        mg.add_module("r")
        compare("sys.modules was cleaned while the graph was built", canon(mg, d), want2)
        env.purge()
        # other state
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            compare("warnings are errors", build(d), want)
        env.purge()
        os.chdir(d)
        compare("the current directory is the one of the program", build(d), want)
        os.chdir("/")
        env.purge()
        flag, sys.dont_write_bytecode = sys.dont_write_bytecode, False
        try:
            real(names)
            env.purge()
            compare("there are byte code caches", build(d), want)
        finally:
            sys.dont_write_bytecode = flag
        env.purge()
        res.traces += 5
        res.step(5 * len(want["edges"]))
        res.state(want)
    res.outcome = ["proj", len(names)]


# ------------------------------------------------------------------ odd modules


def behave(case, env, res):
    text = C16.BEHAVE[case["behave"]][0] + "\n"
    with env.case() as d:
        tree = {"q1.py": "", "q2.py": "", "u.py": "import t\n"}
        if case["where"] == "pkg":
            tree.update({"r.py": "import q1, t, t.s\nfrom t import s, zz\nfrom t.s import v\n", "t/__init__.py": "import q1\n" + text, "t/s.py": "import q2\n"})
        else:
            tree.update({"r.py": "import t\nfrom t import s\n", "t.py": "import q1\n" + text})
        write_tree(d, tree)
        want = build(d)
        env.purge()
        for pre in (["t"], ["t.s"], ["t.s", "t"], ["r"], ["q1"], ["u"], ["u", "t.s"]):
            real(pre)
            got = build(d)
            env.purge()
            compare(f"{pre} were imported", got, want)
            res.step()
        res.state(want)
    res.outcome = ["behave", want["nodes"].get("t", {}).get("class")]


# ------------------------------------------------------------------ warnings


def warned(case, env, res):
    text = WARN[case["warn"]] + "import q1\nq2 = 1\n"
    form = case["form"]
    with env.case(subdirs=["src", "x.zip"]) as d:
        tree = {"q1.py": "", "q2.py": "", "t.py": text, "r.py": "import t\nfrom t import q2\n"}
        if form in ("package", "parent"):
            del tree["t.py"]
            tree.update({"t/__init__.py": text, "t/s.py": text})
            if form == "parent":
                tree["r.py"] = "import t.s\nfrom t import s, q2, zz\nfrom t.s import q3\n"
        elif form in ("explicit", "pkgres"):
            del tree["t.py"]
            how = "from pkgutil import extend_path\n__path__ = extend_path(__path__, __name__) + [__path__[0] + '/more']\n"
            if form == "pkgres":
                how = "import pkg_resources\n__path__ = list(__path__) + [__path__[0] + '/more']\n"
                tree["pkg_resources.py"] = "import sys\nsys.modules['warnings'].warn('x', DeprecationWarning)\n"
            tree.update({"t/__init__.py": text + how, "t/more/s.py": text, "r.py": "import t.s\nfrom t import s, q2, zz\n"})
            if "warn" in text:
                # runs to its end
                tree["t/__init__.py"] = how + text
        elif form == "mypyc":
            from .c25_compiled import HELPER, SO, record

            tree["t" + SO[0]] = ""
            tree[HELPER + SO[0]] = ""
            tree.update(record("D", sorted(tree)))
        write_tree(d + "/src", tree)
        if form == "zip":
            zip_tree(d + "/src", d + "/x.zip")
            for n in tree:
                os.unlink(d + "/src/" + n)
        importlib.invalidate_caches()

        def build_form():
            mg = new_graph()
            # Dependencies of pkgutil do not matter
            mg.add_excludes(["collections", "functools", "importlib", "inspect", "os", "re", "types", "warnings", "zipimport"])
            if form == "script":
                mg.add_script(d + "/src/t.py")
            elif form == "source":
                mg.add_dependencies_for_source(text)
            else:
                mg.add_module("r")
            got = canon(mg, d)
            if form == "script":
                got["globals"] = sorted(mg.find_node(d + "/src/t.py").globals_written)
            env.purge()
            return got

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            want = build_form()
        expect(want["nodes"].get("q1", {}).get("class") == "SourceModule", f"import in the module with warnings: {want['nodes'].get('q1')}")
        if form in ("explicit", "pkgres") and case["warn"] != "filter":
            expect(want["nodes"]["t.s"]["class"] == "SourceModule", "submodule in the extended search path is missing")
        for f in FILTERS:
            with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()):
                warnings.simplefilter(f)
                before = list(warnings.filters)
                got = build_form()
                if case["warn"] != "filter":
                    expect(warnings.filters == before, "warning filters were changed")
            compare(f"warning filter {f}", got, want)
            res.step()
        res.state(want)
    res.outcome = ["warn", form]


# ------------------------------------------------------------------ six


def six(case, env, res):
    name = case["six"]
    target, kind = C26.target_of(name)
    with env.case() as d:
        tree = C26.six_tree("top")
        head, _, tail = f"six.moves.{name}".rpartition(".")
        tree["r1.py"] = f"import {target}\n"
        tree["r2.py"] = f"from {head} import {tail}\nfrom {head} import {tail} as zz\n"
        tree["r3.py"] = f"import {head}.{tail}\n"
        tree["r4.py"] = f"import {target}\nfrom {head} import {tail}\n"
        tree["v/__init__.py"], tree["v/six.py"] = "", C26.SIX
        same = [n for n in list(C26.MODULES) + list(C26.NESTED) if n != name and C26.target_of(n)[0] == target]
        tree["r5.py"] = f"from v.{head} import {tail}\nfrom {head} import {tail}\n" + "".join(f"import six.moves.{n}\n" for n in same if n != "urllib")
        pre = [["six"], ["six.moves"], [f"six.moves.{name}"], ["r1"], ["r2"], ["r3"], ["r4"], ["r1", "r3"], [f"v.six.moves.{name}"], ["r2", f"v.six.moves.{name}"], [f"v.six.moves.{name}", "r2"]]
        pre += [[f"six.moves.{n}"] for n in same] + [[f"six.moves.{n}", f"six.moves.{name}"] for n in same]
        write_tree(d, tree)
        for root in ("r1", "r2", "r3", "r4", "r5"):
            out = []
            for p in [[]] + pre:
                with import_state(), contextlib.redirect_stderr(io.StringIO()):
                    real(p)
                    mg = new_graph()
                    mg.add_excludes(C26.boundary(target))
                    mg.add_module(root)
                    out.append(canon(mg, d))
                    env.purge()
                compare(f"{root}, {p} were imported", out[-1], out[0])
                res.step()
        res.state(out[0])
    res.outcome = ["six", kind]


# ------------------------------------------------------------------ operations


def history(case, env, res):
    """API operations in a process that has imported a module of the program"""
    file = case["history"]
    name = modname(file)[0]
    with env.case() as d:
        write_tree(d, H.FILES)

        def run():
            mg = new_graph()
            for r in ("g", "p.m", "al.x", "bp.sub", "bad", "zz.y"):
                mg.add_module(r)
            mg.add_script(d + "/s.py")
            mg.add_distribution("d1")
            return canon(mg, d)

        want = run()
        env.purge()
        for pre in ([name], [name, "p.m"], ["p.n", name]):
            real(pre)
            got = run()
            env.purge()
            compare(f"{pre} were imported", got, want)
            res.step()
        res.state(want)
    res.outcome = ["history"]


# ------------------------------------------------------------------ standard library

HELPER = """
import sys, os, json
pre, names, path, fd = json.loads(sys.argv[1])
sys.path[:] = path
import warnings, importlib
import modulegraph2
loaded = []
for n in pre:
    try:
        importlib.import_module(n)
        loaded.append(n)
    except BaseException:
        pass
mg = modulegraph2.ModuleGraph()
for n in names:
    mg.add_module(n)
from mc.util import canon
with open(fd, "w") as fp:
    json.dump([loaded, canon(mg)], fp)
os._exit(0)
"""


def stdlib_graph(env, pre):
    names = C27.module_names()
    import objectgraph

    path = [REPO, os.path.dirname(os.path.dirname(os.path.dirname(__file__))), os.path.join(env.root, "none")] + env.stdlib_path
    extra = os.path.join(env.root, "deps")
    if not os.path.isdir(extra):
        os.mkdir(extra)
        site = os.path.dirname(os.path.dirname(objectgraph.__file__))
        for n in ("objectgraph", "typing_extensions.py"):
            if os.path.exists(os.path.join(site, n)):
                os.symlink(os.path.join(site, n), os.path.join(extra, n))
    path.insert(2, extra)
    r, w = os.pipe()
    try:
        p = subprocess.Popen(
            [sys.executable, "-S", "-E", "-B", "-c", HELPER, json.dumps([pre, names, path, w])], pass_fds=(w,), stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
        )
        os.close(w)
        w = None
        with os.fdopen(r, "rb") as fp:
            data = fp.read()
        p.wait()
    finally:
        if w is not None:
            os.close(w)
    expect(data, f"the graph of the standard library cannot be built after {len(pre)} modules were imported")
    return json.loads(data)


def stdlib(case, env, res):
    names = C27.module_names()
    k = case["stdlib"]
    pre = names if k == "all" else [n for i, n in enumerate(names) if i % CHUNKS == k]
    if not hasattr(env, "std_fresh"):
        env.std_fresh = stdlib_graph(env, [])[1]
    loaded, got = stdlib_graph(env, pre)
    compare(f"{len(loaded)} modules of the standard library were imported", got, env.std_fresh)
    expect(len(loaded) >= 0.8 * len(pre), "harness: most modules cannot be imported")
    res.step(len(got["edges"]))
    res.state(["stdlib", k, len(loaded)])
    res.outcome = ["stdlib"]
