"""
C23: the graph of a program does not depend on how and where its files are stored.
"""
import importlib
import os
import py_compile
import zipfile

from .. import projects as P
from ..core import Result, expect, expect_eq
from ..util import canon, compile_tree, diff_canon, new_graph, write_tree

PROPERTY = "C23"
TITLE = "the graph does not depend on how the files of the program are stored"
ASSUMPTIONS = [
    "byte code is made by the running interpreter",
    "module level statements only: byte code has no information about optional imports (C02)",
]

DATA = {"p/data.txt": b"x", "p/q/n.dat": b""}


def zipped(d, files, compress=zipfile.ZIP_STORED, dirs=False, prefix="", reverse=False, comment=b"", junk=b""):
    path = os.path.join(d, "x.zip")
    with open(path, "wb") as fp:
        fp.write(junk)
        with zipfile.ZipFile(fp, "w", compress) as zf:
            seen = set()
            for rel in sorted(files, reverse=reverse):
                bits = rel.split("/")
                for i in range(1, len(bits)):
                    x = prefix + "/".join(bits[:i]) + "/"
                    # namespace packages in zip files need an entry for the directory
                    regular = any("/".join(bits[:i]) + "/__init__.py" + c in files for c in ("", "c"))
                    if (dirs or not regular) and x not in seen:
                        seen.add(x)
                        zf.writestr(x, b"")
                zf.writestr(prefix + rel, files[rel])
            zf.comment = comment
    return [path + ("/" + prefix.rstrip("/") if prefix else "")]


def byte_code(d, files, keep=False, checked=False):
    """*files* with modules replaced by legacy byte code files"""
    src = os.path.join(d, "compile")
    write_tree(src, files)
    if keep:
        for rel in files:
            if rel.endswith(".py"):
                py_compile.compile(os.path.join(src, rel), doraise=True)
                py_compile.compile(os.path.join(src, rel), os.path.join(src, rel) + "c", doraise=True)
    else:
        compile_tree(src)
    out = {}
    for dirpath, _, names in os.walk(src):
        for n in names:
            p = os.path.join(dirpath, n)
            with open(p, "rb") as fp:
                out[os.path.relpath(p, src)] = fp.read()
    return out


def directory(d, files, name="dir"):
    root = os.path.join(d, name)
    write_tree(root, files)
    os.makedirs(root, exist_ok=True)
    return [root]


def recoded(files, f):
    return {k: f(v) if k.endswith(".py") else v for k, v in files.items()}


def split(d, files, key):
    """Files divided over two directories: a package is in one of them"""
    one = {k: v for k, v in files.items() if key(k)}
    two = {k: v for k, v in files.items() if not key(k)}
    return directory(d, one, "one") + directory(d, two, "two")


def record(files):
    out = dict(files)
    out["D-1.dist-info/METADATA"] = b"Metadata-Version: 2.1\nName: D\nVersion: 1\n"
    out["D-1.dist-info/RECORD"] = "".join(f"{f},,\n" for f in sorted(files)).encode()
    return out


def linked(d, files):
    root = directory(d, files, "real")[0]
    link = os.path.join(d, "link")
    os.symlink(root, link)
    return [link]


def linked_files(d, files):
    """Every file is a link"""
    root = directory(d, files, "real")[0]
    for rel in files:
        p = os.path.join(d, "farm", rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        os.symlink(os.path.join(root, rel), p)
    return [os.path.join(d, "farm")]


def linked_packages(d, files):
    """Every toplevel file or directory is a link"""
    root = directory(d, files, "real")[0]
    os.mkdir(os.path.join(d, "farm"))
    for n in os.listdir(root):
        os.symlink(os.path.join(root, n), os.path.join(d, "farm", n))
    return [os.path.join(d, "farm")]


#: name: function (scratch, files) that stores the files and returns the entries for sys.path
STORES = {
    "zip": lambda d, f: zipped(d, f),
    "zip-dirs": lambda d, f: zipped(d, f, dirs=True),
    "zip-deflate": lambda d, f: zipped(d, f, zipfile.ZIP_DEFLATED, dirs=True, reverse=True),
    "zip-reverse": lambda d, f: zipped(d, f, reverse=True),
    "zip-prefix": lambda d, f: zipped(d, f, prefix="lib/python/"),
    "zip-prefix-dirs": lambda d, f: zipped(d, f, prefix="lib/", dirs=True),
    "zip-comment": lambda d, f: zipped(d, f, comment=b"comment", junk=b"#!/usr/bin/python\n"),
    "zip-pyc": lambda d, f: zipped(d, byte_code(d, f)),
    "zip-both": lambda d, f: zipped(d, byte_code(d, f, keep=True)),
    "zip-crlf": lambda d, f: zipped(d, recoded(f, lambda s: s.replace(b"\n", b"\r\n"))),
    "zip-bom": lambda d, f: zipped(d, recoded(f, lambda s: b"\xef\xbb\xbf" + s)),
    "zip-latin": lambda d, f: zipped(d, recoded(f, lambda s: b"# coding: latin-1\n# \xe9\n" + s)),
    "zip-record": lambda d, f: zipped(d, record(f)),
    "zip-and-dir": lambda d, f: zipped(d, {k: v for k, v in f.items() if k[0] in "pd"}) + directory(d, {k: v for k, v in f.items() if k[0] not in "pd"}),
    "dir-and-zip": lambda d, f: directory(d, {k: v for k, v in f.items() if k[0] in "pn"}) + zipped(d, {k: v for k, v in f.items() if k[0] not in "pn"}),
    "pyc": lambda d, f: directory(d, byte_code(d, f)),
    "both": lambda d, f: directory(d, byte_code(d, f, keep=True)),
    "pyc-mixed": lambda d, f: directory(d, {**{k: v for k, v in f.items() if "/" not in k or "__init__" in k},
                                            **{k: v for k, v in byte_code(d, f).items() if not ("/" not in k or "__init__" in k)}}),
    "pyc-packages": lambda d, f: directory(d, {**{k: v for k, v in f.items() if "__init__" not in k},
                                               **{k: v for k, v in byte_code(d, f).items() if "__init__" in k}}),
    "split": lambda d, f: split(d, f, lambda k: k[0] in "pr"),
    "split2": lambda d, f: split(d, f, lambda k: k[0] not in "pan"),
    "split-empty": lambda d, f: [os.path.join(d, "nowhere")] + directory(d, {"other.txt": b""}, "empty") + directory(d, f),
    "slash": lambda d, f: [directory(d, f)[0] + "/"],
    "dotdot": lambda d, f: [directory(d, f)[0] + "/../dir"],
    "dot": lambda d, f: [directory(d, f)[0] + "/."],
    "deep": lambda d, f: directory(d, f, "a/p/q/r"),
    "odd": lambda d, f: directory(d, f, "x.zip/\u00e9 'z'/p.py"),
    "zip-name": lambda d, f: directory(d, f, "x.zip"),
    "relative": lambda d, f: [os.path.basename(directory(d, f)[0])],
    "cwd": lambda d, f: (directory(d, f, "."), [""])[1],
    "dotdir": lambda d, f: (directory(d, f, "."), ["."])[1],
    "relative-zip": lambda d, f: (zipped(d, f), ["x.zip"])[1],
    "relative-zip-prefix": lambda d, f: (zipped(d, f, prefix="lib/"), ["./x.zip/lib"])[1],
    "link": linked,
    "link-files": linked_files,
    "link-packages": linked_packages,
    "record": lambda d, f: directory(d, record(f)),
    "record-link": lambda d, f: linked(d, record(f)),
    "record-link-files": lambda d, f: linked_files(d, record(f)),
    "record-link-packages": lambda d, f: linked_packages(d, record(f)),
    "record-relative": lambda d, f: [os.path.basename(directory(d, record(f))[0])],
    "record-cwd": lambda d, f: (directory(d, record(f), "."), [""])[1],
    "record-slash": lambda d, f: [directory(d, record(f))[0] + "/"],
    "record-dotdot": lambda d, f: [directory(d, record(f))[0] + "/../dir"],
    "record-pyc": lambda d, f: directory(d, record(byte_code(d, f))),
    "crlf": lambda d, f: directory(d, recoded(f, lambda s: s.replace(b"\n", b"\r\n"))),
    "cr": lambda d, f: directory(d, recoded(f, lambda s: s.replace(b"\n", b"\r"))),
    "bom": lambda d, f: directory(d, recoded(f, lambda s: b"\xef\xbb\xbf" + s)),
    "latin": lambda d, f: directory(d, recoded(f, lambda s: b"# coding: latin-1\n# \xe9\n" + s)),
    "nonl": lambda d, f: directory(d, recoded(f, lambda s: s.rstrip(b"\n"))),
    "spaces": lambda d, f: directory(d, recoded(f, lambda s: s.replace(b"\n", b" \t;\n\n\n# import other\n"))),
    "oneline": lambda d, f: directory(d, recoded(f, lambda s: b"; ".join(s.splitlines()))),
    "docstring": lambda d, f: directory(d, recoded(f, lambda s: b"'''import other'''\n" + s)),
    "future": lambda d, f: directory(d, recoded(f, lambda s: b"'''x'''\n" + s + b"\n\x0c\n")),
    "noinit-data": lambda d, f: directory(d, {**f, "r.txt": b"", "a.txt": b"", "p.txt": b"", "p/m.pyi": b"import other", "a.pyi": b"", "p/q.pyw": b"import other"}),
    "readonly": lambda d, f: readonly(directory(d, f)),
    "linked-zip": lambda d, f: (zipped(d, f), os.symlink(os.path.join(d, "x.zip"), os.path.join(d, "y.pyz")), [os.path.join(d, "y.pyz")])[2],
}


def readonly(entries):
    for dirpath, _, names in os.walk(entries[0]):
        for n in names:
            os.chmod(os.path.join(dirpath, n), 0o444)
    return entries


def BOUND(tier):
    return (
        f"project universe of C04 (root statement, pairs of root statements, root statement x one statement in one other file"
        + (", root x statements in two other files" if tier == "thorough" else "")
        + f", universes with equal and with special names: root x one other) x {len(STORES)} ways to store the files: zip files (order, "
        "directory entries, compression, prefixes), byte code, several path entries, symbolic and relative paths, encodings and line ends; "
        "state = graph without the places of files"
    )


def cases(tier):
    for c in P.enum_projects(tier):
        if tier == "quick" and (len(c) > 2 or any(len(st) > 1 for st in c.values())):
            continue
        yield {"proj": c}
    for c in P.enum_worlds("quick"):
        if "w" in c and len(c) <= (3 if tier == "thorough" else 2) and all(len(st) == 1 for k, st in c.items() if k != "w"):
            yield {"proj": c}


def relevant(case):
    return P.relevant(case["proj"])


def place(path, entries, base):
    """A filename relative to the entry of sys.path it is in"""
    if path is None:
        return None
    path = str(path)
    for e in sorted(entries, key=len, reverse=True):
        e = os.path.normpath(os.path.join(base, e))
        p = os.path.normpath(os.path.join(base, path))
        if p.startswith(e + os.sep):
            p = p[len(e) + 1:]
            return p[:-1] if p.endswith(".pyc") else p
    return path


def describe(mg, entries, base):
    """The graph without the places of the files"""
    out = canon(mg)
    for n in mg.nodes():
        rec = out["nodes"][n.identifier]
        rec["file"] = place(rec["file"], entries, base)
        if "path" in rec:
            rec["path"] = sorted({place(p, entries, base) for p in rec["path"]})
        if rec["class"] == "BytecodeModule":
            rec["class"] = "SourceModule"
        init = getattr(n, "init_module", None)
        if init is not None:
            rec["init"] = type(init).__name__.replace("Bytecode", "Source")
            rec["init file"] = place(init.filename, entries, base)
        mod = n if init is None else init
        for k in ("globals_written", "globals_read"):
            if hasattr(mod, k):
                rec[k] = sorted(getattr(mod, k) - {"__doc__"})
        if hasattr(n, "has_data_files"):
            rec["data"] = n.has_data_files
    return out


def asnames(st):
    if st[0] == "import":
        return [st[2]]
    return [a for _, a in st[3]] if st[0] == "from" else []


def without_names(edges):
    return {k: sorted({tuple(x[:3]) for x in v}) for k, v in edges.items()}


def run_case(case, env):
    res = Result()
    res.traces = 0
    mods = P.project(case["proj"])
    files = {k: v.encode() for k, v in P.tree(mods).items()}
    if any(k.startswith("p/") for k in files):
        files.update(DATA)
    want = None
    import sys

    # 'import a as b' in byte code does not tell that the name is that of the module
    renames = any(name for m, sts in mods.items() if m != "r" for st in sts if st[0] != "assign" for name in asnames(st))
    for store in (None, *STORES):
        if store is not None and "pyc" in store and renames:
            continue
        with env.case(chdir=True) as d:
            entries = directory(d, files) if store is None else STORES[store](d, files)
            sys.path[:1] = entries
            importlib.invalidate_caches()
            mg = new_graph()
            mg.add_module("r")
            got = describe(mg, entries, d)
            if store is None:
                want = got
                continue
            if store.startswith("record"):
                for n in mg.nodes():
                    if got["nodes"][n.identifier]["file"] is not None and type(n).__name__ != "NamespacePackage":
                        expect(n.distribution is not None and n.distribution.name == "D", f"[{store}] distribution of {n.identifier}: {n.distribution}")
            ref = want
            if "pyc" in store:
                # byte code does not have the names in 'import ... as name'
                ref = dict(want, edges=without_names(want["edges"]))
                got["edges"] = without_names(got["edges"])
            delta = diff_canon(got, ref)
            expect(not delta, f"[{store}] the graph is different: {delta}")
        res.step(len(got["edges"]))
        res.traces += 1
    res.state(want)
    res.outcome = [len(want["nodes"]), any(n["class"] == "MissingModule" for n in want["nodes"].values())]
    return res
