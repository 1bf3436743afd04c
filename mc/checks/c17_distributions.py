"""
C17: distributions: what they contain, which of them are found and which modules belong to them.
"""
import csv
import importlib.machinery
import os
import sys
import zipfile
from itertools import combinations, permutations, product

from ..core import Result, expect, expect_eq
from ..util import canon, cls, depinfo, new_graph, reachable, write_tree, zip_tree

PROPERTY = "C17"
TITLE = "distributions own exactly the files and modules in their RECORD"
ASSUMPTIONS = ["installed files do not change between the graphs that are built in one process"]

EXT = importlib.machinery.EXTENSION_SUFFIXES
SUFFIXES = sorted(importlib.machinery.all_suffixes(), key=len, reverse=True)

#: RECORD path -> file content (None: listed, not on disk)
LINES = {
    "m.py": "import z1\n",
    "k.pyc": None,
    "ext" + EXT[0]: b"",
    "ext2.abi3.so": b"",
    "ext3.so": b"",
    "ext4.cpython-27m-x86_64-linux-gnu.so": b"",
    "p/__init__.py": "import z2\n",
    "p/s.py": "import m\n",
    "p/q/__init__.py": "",
    "p/q/__init__.pyi": "",
    "p/q/x" + EXT[0]: b"",
    "p/data.txt": "x",
    "p/__pycache__/s.cpython-312.pyc": b"",
    "__pycache__/m.cpython-312.pyc": b"",
    "p/__pycache__/s.pyc": None,
    "__pycache__/k.py": "",
    "x__pycache__/m.py": "",
    "__pycache__x/m.py": "",
    "p/x__pycache__/n.py": "",
    "__pycache__.py": "",
    "p/__main__.py": "",
    "ns/part.py": "",
    "ns/deep/part.py": "",
    "ext5/__init__" + EXT[0]: b"",
    "D-1.dist-info/METADATA": None,
    "D-1.dist-info/RECORD": None,
    "D-1.dist-info/hook.py": "",
    "../bin/script.py": "",
    "../../x.py": None,
    "d.data/x.py": "",
    "p.q.py": "",
    "/nonexistent/abs.py": None,
    "3204__mypyc.py": "",
    "with-dash.py": "",
    "caf\u00e9.py": "",
    "bad.py": "if if\n",
    "a,b.txt": "",
    'q"uote.txt': "",
    "sp ace.txt": "",
    "missing.py": None,
    ".hidden.py": "",
    "p/.py": "",
    "x.PY": "",
    "y.pyw": "",
    "z.py.txt": "",
    "./dot.py": None,
    "__init__.py": "",
    "class.py": "",
}
#: names that the reference does not decide (both answers are fine)
UNDECIDED = {"./dot.py", "__init__.py"}


def ref_import_name(path):
    """The name to import *path* with (path relative to an entry of sys.path), or None"""
    if path.startswith("/"):
        return None
    parts = path.split("/")
    for sfx in SUFFIXES:
        if parts[-1].endswith(sfx):
            parts[-1] = parts[-1][: -len(sfx)]
            break
    else:
        return None
    if len(parts) > 1 and parts[-1] == "__init__":
        del parts[-1]
    if "__pycache__" in parts[:-1] or any(not p or "." in p for p in parts):
        return None
    return ".".join(parts)


#: dist-info directories that are not usable
BROKEN = {
    "no-metadata": {"RECORD": "x.py,,\n"},
    "no-record": {"METADATA": "Name: B\nVersion: 1\n"},
    "no-name": {"METADATA": "Version: 1\n", "RECORD": ""},
    "no-version": {"METADATA": "Name: B\n", "RECORD": ""},
    "empty-metadata": {"METADATA": "", "RECORD": ""},
    "binary-metadata": {"METADATA": b"\xff\xfe\0\x80", "RECORD": ""},
    "binary-record": {"METADATA": "Name: B\nVersion: 1\n", "RECORD": b"\xff\xfe\x80,,\n"},
    "null-record": {"METADATA": "Name: B\nVersion: 1\n", "RECORD": b"a\0b.py,,\n"},
    "empty": {},
    "file": None,
    "dirs": {"METADATA/": "", "RECORD/": ""},
    "dangling": "link",
}

#: hash and size
TAILS = {
    "hash": ",sha256=47DEQpj8HBSa-_TImW-5JCeuQeRkm5NMpJWZG3hSuFU,12",
    "hashonly": ",sha256=47DEQpj8HBSa-_TImW-5JCeuQeRkm5NMpJWZG3hSuFU,",
    "sizeonly": ",,12",
    "md5": ",md5=1B2M2Y8AsgTpgAmY7PhCfg,0",
    "blake": ",blake2b=x==,1",
}

FORMS = ["abs", "rel", "dot", "empty", "slash", "dotdot", "symlink", "symfile", "double"]

MODULES = {
    "m": ["m.py"],
    "k": ["k.pyc"],
    "e": ["e" + EXT[0]],
    "p": ["p/__init__.py"],
    "p.s": ["p/__init__.py", "p/s.py"],
    "p.e": ["p/__init__.py", "p/e" + EXT[0]],
    "ns": ["ns/x.py"],
    "ns.x": ["ns/x.py"],
    "bad": ["bad.py"],
    "pb": ["pb/__init__.py"],
    "pk": ["pk/__init__.pyc"],
}


def BOUND(tier):
    return (
        f"RECORD files with all sequences of up to 2 and all {'sets' if tier == 'quick' else 'sequences'} of 3 of {len(LINES)} kinds of lines (each quoted when needed, with hash and size, CRLF or LF, "
        "without final newline): files and import names against csv and importlib's suffix rules, add_distribution by name and by object: exact edges; "
        f"up to 2 of {len(BROKEN)} kinds of unusable dist-info x all listing orders x other path entries; {len(MODULES)} kinds of modules x {len(FORMS)} forms of the "
        "path entry x recorded or not x shadowing order of two entries: owner of each node; state = canonical graph and owners"
    )


def cases(tier):
    names = list(LINES)
    yield {"record": []}
    for a in names:
        for style in ("plain", "quoted", "crlf", "noeol", "dup", *TAILS):
            yield {"record": [a], "style": style}
    for a, b in permutations(names, 2):
        yield {"record": [a, b]}
        yield {"record": [a, b], "style": "md5"}
    for c in combinations(names, 3) if tier == "quick" else permutations(names, 3):
        yield {"record": list(c)}
    yield {"record": names, "style": "hash"}
    for b in BROKEN:
        for where in ("same", "before", "after"):
            for order in (0, 1, 2):
                yield {"broken": [b], "where": where, "order": order}
    for b in combinations(BROKEN, 2):
        for order in range(4):
            yield {"broken": list(b), "where": "same", "order": order}
    for mod, form in product(MODULES, FORMS):
        for rec in ("yes", "no", "other"):
            yield {"owner": mod, "form": form, "rec": rec}
    for mod in MODULES:
        for box in ("dir", "zip"):
            for first in (0, 1):
                for d in range(4):
                    if box == "zip" and mod in ("e", "p.e", "ns"):
                        continue
                    yield {"shadow": mod, "box": box, "first": first, "dists": d}
    for mask in range(1 << 4):
        for how in ("name", "object", "both", "root", "excluded"):
            yield {"add": mask, "how": how}
    for n in (2, 3):
        for perm in permutations(range(n)):
            for q in range(n + 1):
                yield {"named": list(perm), "query": q}
                for odd in ODD:
                    for at in range(len(perm) + 1):
                        yield {"named": list(perm), "query": q, "odd": odd, "at": at}


def metadata(name):
    return f"Metadata-Version: 2.1\nName: {name}\nVersion: 1.0\nSummary: x\n\nbody\n"


def record_text(paths, style="plain"):
    out = []
    for p in paths:
        quoted = style == "quoted" or "," in p or '"' in p
        q = '"' + p.replace('"', '""') + '"' if quoted else p
        tail = TAILS.get(style, ",,")
        out.append(q + tail)
        if style == "dup":
            out.append(q + tail)
    eol = "\r\n" if style == "crlf" else "\n"
    text = eol.join(out)
    return text if style == "noeol" or not out else text + eol


def dist_info(name, paths, style="plain", where=""):
    base = f"{where}{name}-1.dist-info/"
    return {base + "METADATA": metadata(name), base + "RECORD": record_text(paths, style).encode()}


def check_distribution(dist, site, name, paths, text):
    rows = [row[0] for row in csv.reader(text.splitlines()) if row]
    expect_eq(rows, [p for p in rows], "csv")
    files = {os.path.normpath(os.path.join(site, p)) for p in rows}
    expect_eq(dist.name, name, "name")
    expect_eq(dist.version, "1.0", "version")
    expect_eq(set(dist.files), files, "files of the distribution")
    for f in files:
        expect(dist.contains_file(f), f"contains_file({f!r}) is False")
    expect(not dist.contains_file(os.path.join(site, "nothing.py")), "contains_file of another file")
    want = {ref_import_name(p) for p in rows if p not in UNDECIDED} - {None}
    free = {x for p in UNDECIDED for x in (p[:-3], p[2:-3], p[:-3].replace("/", "."), "__init__")}
    expect_eq({n for n in dist.import_names if n not in free or n in want}, want, "import names")
    return want


def run_case(case, env):
    import modulegraph2
    from modulegraph2 import _distributions

    res = Result()
    real_listdir = os.listdir
    try:
        for k in ("record", "broken", "owner", "shadow", "add", "named"):
            if k in case:
                globals()["do_" + k](case, env, res, modulegraph2, _distributions)
    finally:
        os.listdir = real_listdir
    return res


def do_record(case, env, res, api, _):
    paths, style = case["record"], case.get("style", "plain")
    text = record_text(paths, style)
    with env.case(subdirs=["lib/site"]) as d:
        site = d + "/lib/site"
        tree = dist_info("D", paths, style, "lib/site/")
        keep = dict(tree)
        for p in paths:
            data = LINES[p]
            if data is not None and not p.startswith("/"):
                rel = os.path.relpath(os.path.join(site, p), d)
                tree[rel] = data
        for k in keep:
            tree[k] = keep[k]
        write_tree(d, tree)
        if "k.pyc" in paths:
            from py_compile import compile

            write_tree(d, {"k.py": "import z3\n"})
            compile(d + "/k.py", site + "/k.pyc", doraise=True)
        dist = api.distribution_named("D")
        expect(dist is not None, "distribution_named does not find the distribution")
        want = check_distribution(dist, site, "D", paths, text)
        expect_eq([x.name for x in api.all_distributions([site])], ["D"], "all_distributions")
        res.step(len(paths))
        mg = new_graph()
        got = mg.add_distribution("D")
        expect(got is dist, "add_distribution returns another object")
        expect(mg.find_node(dist.identifier) is dist and dist in list(mg.roots()), "the distribution is not a root")
        edges = {dst.identifier: [depinfo(x) for x in data] for src, dst, data in mg.edges() if src is dist}
        free = {x for p in UNDECIDED for x in (p[:-3], p[2:-3], "__init__")}
        edges = {k: v for k, v in edges.items() if k not in free or k in want}
        expect_eq(edges, {n: [[False, True, False, None]] for n in want}, "edges of the distribution")
        for p in paths:
            n = ref_import_name(p)
            if n is None or p in UNDECIDED:
                continue
            node = mg.find_node(n)
            kind = type(node).__name__
            ok = LINES[p] is not None or p == "k.pyc"
            if ok and p == "bad.py":
                expect_eq(kind, "InvalidModule", n)
            elif ok and not (n.startswith("p.") and kind == "MissingModule" and not {"p/__init__.py", "p/s.py"} & set(paths)):
                expect(kind not in ("MissingModule", "InvalidModule", "NoneType"), f"{n} is a {kind}")
                if n not in ("p", "p.q", "ns", "ns.deep"):
                    if kind == "Package":
                        node = node.init_module
                    expect_eq(os.path.realpath(node.filename), os.path.realpath(os.path.join(site, p)), f"file of {n}")
                    expect(node.distribution is dist, f"distribution of {n} is {node.distribution}")
            if not ok:
                expect_eq(kind, "MissingModule", n)
        res.state([canon(mg, d), sorted(want)])
        res.outcome = ["record", len(want)]


def make_broken(d, where, name, kind):
    path = f"{where}{name}.dist-info"
    if kind is None:
        write_tree(d, {path: "x"})
    elif kind == "link":
        os.makedirs(os.path.join(d, where), exist_ok=True)
        os.symlink(d + "/nowhere", os.path.join(d, path))
    else:
        write_tree(d, {path + "/": ""})
        write_tree(d, {f"{path}/{k}": v for k, v in kind.items()})


def do_broken(case, env, res, api, mod):
    subs = {"same": ["s"], "before": ["b", "s"], "after": ["s", "b"]}[case["where"]]
    with env.case(subdirs=subs) as d:
        tree = {"s/m.py": "", "s/n.py": "", "b/o.py": "", "r.py": ""}
        tree.update(dist_info("D1", ["m.py"], where="s/"))
        tree.update(dist_info("D2", ["n.py"], where="s/"))
        write_tree(d, tree)
        names = []
        for i, b in enumerate(case["broken"]):
            names.append(f"B{i}-1.dist-info")
            make_broken(d, "b/" if case["where"] != "same" else "s/", f"B{i}-1", BROKEN[b])
        order = case["order"]
        good = ["D1-1.dist-info", "D2-1.dist-info"]
        rank = {
            0: names + good, 1: good + names, 2: [good[0]] + names + [good[1]], 3: names[:1] + good + names[1:],
        }[order]
        real = os.listdir

        def listdir(path="."):
            found = real(path)
            return sorted(found, key=lambda n: (rank.index(n) if n in rank else -1, n))

        os.listdir = listdir
        expect_eq(
            [x.name for x in api.all_distributions() if x.name.startswith("D")],
            ["D1", "D2"], "distributions next to unusable ones",
        )
        for n in ("D1", "D2"):
            x = api.distribution_named(n)
            expect(x is not None and x.name == n, f"{n} is not found")
        for fn, n in (("s/m.py", "D1"), ("s/n.py", "D2")):
            x = for_file(mod, d + "/" + fn, None)
            expect(x is NotImplemented or x is not None and x.name == n, f"distribution of {fn} is {x}")
        expect(not for_file(mod, d + "/b/o.py", None, None), "distribution of a file that no distribution has")
        mg = new_graph()
        for m in ("m", "n"):
            mg.add_module(m)
        for m, n in (("m", "D1"), ("n", "D2")):
            node = mg.find_node(m)
            expect(node.distribution is not None and node.distribution.name == n, f"distribution of module {m}")
        expect_eq({x.name for x in mg.distributions()}, {"D1", "D2"}, "ModuleGraph.distributions")
        try:
            mg.add_distribution("NoSuch")
        except ValueError:
            pass
        else:
            expect(False, "add_distribution of an unknown distribution")
        res.step(4)
        res.state([case["where"], sorted(case["broken"]), order])
        res.outcome = ["broken"]


def write_modules(d, where, mod):
    from py_compile import compile

    for f in MODULES[mod]:
        text = b"" if f.endswith(".so") else b"if if\n" if f.startswith(("bad", "pb/")) else b"import zz\n"
        if f.endswith(".pyc"):
            write_tree(d, {"tmp.py": text, os.path.dirname(where + f) + "/": ""})
            compile(d + "/tmp.py", os.path.join(d, where + f), doraise=True)
        else:
            write_tree(d, {where + f: text})


def do_owner(case, env, res, api, _):
    import sys

    mod, form, rec = case["owner"], case["form"], case["rec"]
    with env.case(subdirs=["site"], chdir=True) as d:
        write_modules(d, "site/", mod)
        write_tree(d, {"site/other.py": ""})
        paths = {"yes": MODULES[mod], "no": ["other.py"], "other": ["p/__init__.pyi", "m.txt", "sub/m.py", "M.py"]}[rec]
        write_tree(d, dist_info("D", paths, where="site/"))
        entry = d + "/site"
        real = entry
        if form == "rel":
            entry = "site"
        elif form == "dot":
            entry = "./site"
        elif form == "empty":
            os.chdir(d + "/site")
            entry = ""
        elif form == "slash":
            entry += "/"
        elif form == "dotdot":
            entry = d + "/site/../site"
            os.mkdir(d + "/x")
        elif form == "symlink":
            os.symlink(d + "/site", d + "/link")
            entry = d + "/link"
        elif form == "symfile":
            # installed as links, such as by uv or conda
            os.rename(d + "/site", d + "/store")
            os.mkdir(d + "/site")
            for base, _dirs, fns in os.walk(d + "/store"):
                rel = os.path.relpath(base, d + "/store")
                os.makedirs(os.path.join(d + "/site", rel), exist_ok=True)
                for fn in fns:
                    os.symlink(os.path.join(base, fn), os.path.normpath(os.path.join(d + "/site", rel, fn)))
        elif form == "double":
            entry = d + "//site"
        try:
            sys.path[0] = entry
            sys.path_importer_cache.clear()
            mg = new_graph()
            mg.add_module(mod)
        finally:
            sys.path[0] = real
            sys.path_importer_cache.clear()
        node = mg.find_node(mod)
        kind = type(node).__name__
        expect(kind != "MissingModule", f"{mod} is missing")
        want = "D" if rec == "yes" and mod != "ns" else None
        have = node.distribution and node.distribution.name
        expect_eq(have, want, f"distribution of {mod}")
        if kind == "Package":
            expect_eq(node.init_module.distribution and node.init_module.distribution.name, want, f"distribution of {mod}.__init__")
        expect_eq([x.name for x in mg.distributions()], [want] if want else [], "ModuleGraph.distributions")
        expect_eq([x.name for x in mg.distributions(reachable=False)], [want] if want else [], "ModuleGraph.distributions(False)")
        miss = mg.find_node("zz")
        expect(miss is None or miss.distribution is None, "a missing module has a distribution")
        res.step()
        res.state([mod, form, rec, kind, have])
        res.outcome = ["owner", kind, have]


def do_shadow(case, env, res, api, _):
    """The same module in two entries; the distributions of which record it"""
    mod, box = case["shadow"], case["box"]
    order = ["a", "b"] if case["first"] == 0 else ["b", "a"]
    entry = {"a": "a", "b": "b.zip" if box == "zip" else "b"}
    with env.case(subdirs=[entry[x] for x in order]) as d:
        for k, x in enumerate("ab"):
            write_modules(d, x + "/", mod)
            if case["dists"] >> k & 1:
                write_tree(d, dist_info("D" + x, MODULES[mod], where=x + "/"))
        if box == "zip":
            zip_tree(d + "/b", d + "/b.zip", dirs=True)
        mg = new_graph()
        mg.add_module(mod)
        node = mg.find_node(mod)
        expect(type(node).__name__ not in ("MissingModule",), f"{mod} is missing")
        first = order[0]
        want = "D" + first if case["dists"] >> "ab".index(first) & 1 else None
        have = node.distribution and node.distribution.name
        if mod == "ns":
            want = None
        if box == "zip" and first == "b":
            # distributions in zip files are not looked at
            want = None
        expect_eq(have, want, f"distribution of {mod}")
        expect_eq([x.name for x in mg.distributions()], [want] if want else [], "ModuleGraph.distributions")
        res.step()
        res.state([mod, box, order, case["dists"], have])
        res.outcome = ["shadow", have]


def do_add(case, env, res, api, _):
    """Some of the modules are in the distribution; the others import, are imported or are unrelated"""
    mods = ["m", "p", "p.s", "u"]
    files = {"m": "m.py", "p": "p/__init__.py", "p.s": "p/s.py", "u": "u.py"}
    inside = [x for k, x in enumerate(mods) if case["add"] >> k & 1]
    how = case["how"]
    with env.case() as d:
        write_tree(d, {"m.py": "import p.s\nimport zz\n", "p/__init__.py": "", "p/s.py": "import m, v\n", "u.py": "import v\n", "v.py": ""})
        write_tree(d, dist_info("D", [files[x] for x in inside]))
        write_tree(d, dist_info("V", ["v.py"]))
        dist = api.distribution_named("D")
        deps = {"m": {"p", "p.s"}, "p": set(), "p.s": {"m", "v", "p"}, "u": {"v"}, "v": set()}
        mg = new_graph()
        roots = set()
        if how == "root":
            mg.add_module("u")
            roots.add("u")
        if how == "excluded":
            mg.add_excludes(["p.s"])
            deps["m"] = {"p"}
            deps["p.s"] = {"p"}
        got = mg.add_distribution("D" if how != "object" else dist)
        if how == "both":
            got = mg.add_distribution(dist)
        expect(got is dist, "add_distribution returns another object")
        todo = list(set(inside) | roots)
        seen = set(todo)
        while todo:
            for y in deps[todo.pop()]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        reach = {x for x in reachable(mg) if cls(mg, x) not in ("MissingModule", "ExcludedModule", "PyPIDistribution")}
        if how == "excluded":
            seen.discard("p.s")
        expect_eq(reach, seen, "modules in the graph")
        expect_eq({r.identifier for r in mg.roots()}, roots | {dist.identifier}, "roots")
        edges = {dst.identifier: [depinfo(x) for x in data] for src, dst, data in mg.edges() if src is dist}
        expect_eq(edges, {n: [[False, True, False, None]] for n in inside}, "edges of the distribution")
        owners = {("D" if x in inside else "V" if x == "v" else None) for x in seen} - {None}
        expect_eq({x.name for x in mg.distributions()}, owners, "ModuleGraph.distributions")
        names = [x.name for x in mg.distributions()]
        expect_eq(len(names), len(set(names)), "a distribution is reported twice")
        res.step(len(seen))
        res.state(canon(mg, d))
        res.outcome = ["add", how, len(owners)]


def for_file(mod, filename, path, default=NotImplemented):
    """distribution_for_file is not part of the public API"""
    func = getattr(mod, "distribution_for_file", None)
    return default if func is None else func(filename, path)


#: entries of sys.path in which there are no modules
ODD = ("missing", "file", "zip", "notdir", "link", "bytes", "none", "int")


def odd_entry(d, kind):
    if kind == "file":
        write_tree(d, {"odd": "text"})
    elif kind == "zip":
        with zipfile.ZipFile(d + "/odd", "w") as zf:
            zf.writestr("Same-1.dist-info/METADATA", "Name: Same\nVersion: 1\n")
    elif kind == "notdir":
        write_tree(d, {"odd": "text"})
        return d + "/odd/sub"
    elif kind == "link":
        os.symlink(d + "/nowhere", d + "/odd")
    elif kind in ("bytes", "none", "int"):
        # Ignored by the import system
        return {"bytes": os.fsencode(d), "none": None, "int": 1}[kind]
    return d + "/odd"


def do_named(case, env, res, api, mod):
    """Distributions with the same name on different entries: the first entry wins"""
    perm, q = case["named"], case["query"]
    with env.case(subdirs=[f"e{i}" for i in perm]) as d:
        for i in perm:
            write_tree(d, {f"e{i}/x{i}.py": ""})
            write_tree(d, dist_info("Same", [f"x{i}.py"], where=f"e{i}/"))
            if i == q:
                write_tree(d, {f"e{i}/only.py": ""})
                write_tree(d, dist_info("Only", ["only.py"], where=f"e{i}/"))
        if "odd" in case:
            # (removed at the end of the case)
            sys.path.insert(case["at"], odd_entry(d, case["odd"]))
            mg = new_graph()
            for i in perm:
                node = mg.add_module(f"x{i}")
                expect(type(node).__name__ == "SourceModule" and node.distribution is not None, f"x{i} is {node}")
        first = api.distribution_named("Same")
        expect_eq(set(first.import_names), {f"x{perm[0]}"}, "distribution_named of a name with several distributions")
        only = api.distribution_named("Only")
        expect_eq(only is not None, q in perm, "distribution_named")
        expect_eq(len([x for x in api.all_distributions() if x.name == "Same"]), len(perm), "all_distributions")
        other = f"{d}/e{perm[-1]}"
        expect_eq(set(api.distribution_named("Same", [other]).import_names), {f"x{perm[-1]}"}, "distribution_named with a path")
        expect_eq({n for x in api.all_distributions([other]) if x.name == "Same" for n in x.import_names}, {f"x{perm[-1]}"}, "all_distributions with a path")
        f = f"{other}/x{perm[-1]}.py"
        expect(not for_file(mod, f, [f"{d}/e{perm[0]}"], None), "distribution_for_file ignores the path")
        x = for_file(mod, f, [other])
        expect(x is NotImplemented or x is not None and set(x.import_names) == {f"x{perm[-1]}"}, "distribution_for_file with a path")
        res.step(3)
        res.state([perm, q])
        res.outcome = ["named"]
