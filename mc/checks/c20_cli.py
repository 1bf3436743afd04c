"""
C20: the command line gives the graph that the API gives for the same configuration.
"""
import contextlib
import io
import os
import subprocess
import sys
from itertools import combinations, permutations, product

from ..core import REPO, Result, expect, expect_eq
from ..util import new_graph, write_tree

PROPERTY = "C20"
TITLE = "the command line builds and writes the same graph as the API, and leaves the process as it was"
ASSUMPTIONS = ["the export functions are right (see C19)"]

FILES = {
    "base/a.py": "import b\nfrom p import s\nimport only1, only2, keyword\n",
    "base/b.py": "import zz\n",
    "base/p/__init__.py": "", "base/p/s.py": "import b\n",
    "base/sc.py": "import a\nimport onlybase\n", "base/sc2.py": "import b\n",
    "base/bad.py": "if if\n",
    "base/d1-1.dist-info/METADATA": "Name: d1\nVersion: 1\n", "base/d1-1.dist-info/RECORD": "b.py,,\np/__init__.py,,\n",
    "base/d2-1.dist-info/METADATA": "Name: d2\nVersion: 1\n", "base/d2-1.dist-info/RECORD": "a.py,,\n",
    "P1/b.py": "import from1\n", "P1/only1.py": "", "P1/p/__init__.py": "import pathone\n",
    "P2/b.py": "import from2\n", "P2/only2.py": "", "P2/onlybase.py": "",
    "P2/d1-1.dist-info/METADATA": "Name: d1\nVersion: 2\n", "P2/d1-1.dist-info/RECORD": "b.py,,\nonly2.py,,\n",
}

#: options: argv tokens -> (attribute, value)
OPTIONS = {
    "m": (["-m"], "kind", "module"), "M": (["--module"], "kind", "module"),
    "s": (["-s"], "kind", "script"), "S": (["--script"], "kind", "script"),
    "d": (["-d"], "kind", "dist"), "D": (["--distribution"], "kind", "dist"),
    "fh": (["-f", "html"], "format", "HTML"), "Fh": (["--format=html"], "format", "HTML"),
    "fd": (["-fdot"], "format", "GRAPHVIZ"), "Fd": (["--format", "dot"], "format", "GRAPHVIZ"),
    "xb": (["-x", "b"], "x", ["b"]), "xp": (["--exclude", "p.s"], "x", ["p.s"]), "xk": (["-xkeyword"], "x", ["keyword"]), "X": (["--exclude-stdlib"], "x", None),
    "p1": (["-p", "P1"], "p", "P1"), "p2": (["--path", "P2"], "p", "P2"), "pa": (["-p", "@/P1"], "p", "@/P1"), "pn": (["-pnosuchdir"], "p", "nosuchdir"),
    "pb": (["-p", "@BASE"], "p", "@BASE"),
    "o": (["-o", "out.txt"], "out", "out.txt"), "O": (["--output=out2.txt"], "out", "out2.txt"),
}
NAMES = {"module": ["a", "p.s", "b", "zz", "bad"], "script": ["sc.py", "sc2.py", "@/sc.py"], "dist": ["d1", "d2"]}
ERRORS = {
    "no-script": ["-s", "nosuch.py"], "dir-script": ["-s", "p"], "bad-script": ["-s", "bad.py"], "no-dist": ["-d", "nosuch"], "second-dist": ["-d", "d1", "nosuch"],
    "second-script": ["-s", "sc.py", "nosuch.py"], "same-script": ["-s", "sc.py", "sc.py"],
    "output-dir": ["-o", "p", "a"], "output-nodir": ["-o", "nosuch/x.txt", "a"], "output-dot": ["-o", "nosuch/x.txt", "-f", "dot", "a"],
    "no-name": [], "only-option": ["-m"], "format": ["-f", "xml", "a"], "unknown": ["--nope", "a"], "missing-value": ["a", "-p"], "missing-x": ["a", "-x"],
}
USAGE = {"no-name", "only-option", "format", "unknown", "missing-value", "missing-x"}


def BOUND(tier):
    return (
        f"all sequences of up to {2 if tier == 'quick' else 3} of {len(OPTIONS)} options x the names of modules, scripts and distributions (one, and all orders of two) x names before or after the options; all sequences of up to 4 or 5 -p options; all pairs of "
        f"command lines with one option after each other in a process; {len(ERRORS)} kinds of failing command lines with each option; {'one in ten' if tier == 'quick' else 'all'} single option "
        "command lines also in a new process; state = the output"
    )


def cases(tier):
    opts = list(OPTIONS)
    for n in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
        for seq in permutations(opts, n):
            kind = kind_of(seq)
            for name in NAMES[kind][: 5 if n < 2 else 1]:
                yield {"opts": list(seq), "names": [name], "pos": "last"}
            if n == 1 or n == 2 and tier == "thorough":
                for two in permutations(NAMES[kind], 2):
                    for pos in ("last", "first"):
                        yield {"opts": list(seq), "names": list(two), "pos": pos}
            elif n:
                yield {"opts": list(seq), "names": NAMES[kind][:2], "pos": "first"}
    paths = [o for o in opts if OPTIONS[o][1] == "p"]
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        for seq in product(paths, repeat=n):
            yield {"opts": list(seq), "names": ["a"], "pos": "last"}
    for a, b in product(opts, repeat=2):
        yield {"opts": [a], "names": NAMES[kind_of([a])][:1], "pos": "last", "then": {"opts": [b], "names": NAMES[kind_of([b])][:2], "pos": "last"}}
    for e in ERRORS:
        for o in [None] + opts:
            if o is None or OPTIONS[o][1] not in ("kind", "format") and not (OPTIONS[o][1] == "out" and e.startswith("output")):
                yield {"error": e, "opt": o}
    for k, o in enumerate([None] + opts):
        kind = kind_of([o] if o else [])
        for j, name in enumerate(NAMES[kind]):
            if tier == "thorough" or j == 0:
                yield {"opts": [o] if o else [], "names": [name], "pos": "last", "process": True}
    for e in ("no-script", "no-dist", "output-nodir", "no-name", "format"):
        yield {"error": e, "opt": None, "process": True}


def kind_of(seq):
    kind = "module"
    for o in seq:
        if OPTIONS[o][1] == "kind":
            kind = OPTIONS[o][2]
    return kind


def fill(word, d):
    word = word.replace("@BASE", d + "/base")
    return word.replace("@", d + "/base") if word.startswith("@/") and not word.startswith("@/P") else word.replace("@", d)


def argv_of(case, d):
    names = [fill(n, d) for n in case["names"]]
    opts = [fill(w, d) for o in case["opts"] for w in OPTIONS[o][0]]
    return names + opts if case["pos"] == "first" else opts + names


def run_main(argv, d):
    """(status, stdout, stderr) of main in this process"""
    import modulegraph2.__main__ as main

    out, err = io.StringIO(), io.StringIO()
    path = sys.path
    before = list(path)
    cwd = os.getcwd()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            main.main(argv)
        status = 0
    except SystemExit as exc:
        status = exc.code if isinstance(exc.code, int) else 0 if exc.code is None else 1
    except (OSError, ValueError, SyntaxError):
        status = 1
    expect(list(sys.path) == before, f"sys.path is {[p for p in sys.path if p not in before]} + ... after {argv}")
    expect_eq(os.getcwd(), cwd, "working directory")
    return status, out.getvalue(), err.getvalue()


def expected(case, d):
    """The output for the graph that is built with the API"""
    import modulegraph2.__main__ as main

    conf = {"kind": "module", "format": "HTML", "x": [], "p": [], "out": None}
    for o in case["opts"]:
        _, key, value = OPTIONS[o]
        if key == "x":
            conf["x"] += sorted(sys.stdlib_module_names) if value is None else value
        elif key == "p":
            conf["p"].append(fill(value, d))
        else:
            conf[key] = value
    saved = list(sys.path)
    sys.path[:] = conf["p"] + saved
    try:
        mg = new_graph()
        mg.add_excludes(conf["x"])
        for n in case["names"]:
            n = fill(n, d)
            {"module": mg.add_module, "script": mg.add_script, "dist": mg.add_distribution}[conf["kind"]](n)
    finally:
        sys.path[:] = saved
    out = io.StringIO()
    main.print_graph(out, main.OutputFormat[conf["format"]], mg)
    check_config(conf, case, mg)
    return out.getvalue(), conf["out"], conf


def check_config(conf, case, mg):
    """The expectation itself, from what is in the files"""
    kinds = {n.identifier: type(n).__name__ for n in mg.iter_graph()}
    for x in conf["x"]:
        if x in kinds:
            expect_eq(kinds[x], "ExcludedModule", f"excluded {x}")
    if conf["kind"] == "module" and case["names"] == ["a"] and "b" not in conf["x"]:
        first = next((p for p in conf["p"] if p.startswith("P") or p.endswith(("P1", "/base"))), None)
        want = "zz" if first is None or first.endswith("/base") else "from1" if first.endswith("P1") else "from2"
        expect(want in kinds and len({"zz", "from1", "from2"} & set(kinds)) == 1, f"b is not the first one on {conf['p']}")


def snapshot(d):
    return {os.path.relpath(os.path.join(b, f), d) for b, _, fs in os.walk(d) for f in fs if "__pycache__" not in b}


def run_case(case, env):
    res = Result()
    with env.case(subdirs=["base"], chdir=True) as d:
        write_tree(d, FILES)
        os.chdir(d + "/base")
        # relative entries of the search path are relative to the working directory
        for p in ("P1", "P2"):
            os.symlink(d + "/" + p, d + "/base/" + p)
        try:
            if "error" in case:
                failing(case, d, res)
            else:
                one(case, env, d, res)
                if "then" in case:
                    one(case["then"], env, d, res)
        finally:
            os.chdir("/")
    return res


def one(case, env, d, res):
    argv = argv_of(case, d)
    env.purge()
    before = snapshot(d)
    status, out, err = run_main(argv, d)
    expect_eq((status, err), (0, ""), f"exit status and error output of {argv}")
    written = snapshot(d) - before
    env.purge()
    want, outfile, conf = expected(case, d)
    if outfile is None:
        expect_eq(written, set(), "files that are written")
        got = out
    else:
        expect_eq(out, "", "standard output with an output file")
        expect_eq(written, {"base/" + outfile}, "files that are written")
        with open(outfile) as fp:
            got = fp.read()
        os.unlink(outfile)
    expect(got == want, f"output of {argv} differs from that for the API: {first_difference(got, want)}")
    if case.get("process"):
        p = start(argv, d)
        expect_eq((p.returncode, p.stderr), (0, ""), f"exit status and error output of a process with {argv}")
        if outfile is not None:
            with open(outfile) as fp:
                got = fp.read()
        else:
            got = p.stdout
        expect(got == want, f"output of a process with {argv} differs: {first_difference(got, want)}")
    res.step(1)
    res.state([conf["kind"], conf["format"], want])
    res.outcome = [conf["kind"], conf["format"], outfile is not None]


def start(argv, d):
    code = "import runpy,sys; sys.path[:0] = [%r]; sys.argv[0] = 'x'; runpy.run_module('modulegraph2', run_name='__main__', alter_sys=True)" % (d + "/base")
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
    return subprocess.run([sys.executable, "-c", code] + argv, capture_output=True, text=True, env=env, cwd=d + "/base", timeout=50)


def first_difference(a, b):
    for x, y in zip(a.splitlines() + ["(end)"], b.splitlines() + ["(end)"]):
        if x != y:
            return f"{x!r} instead of {y!r}"
    return ""


def failing(case, d, res):
    argv = ([] if case["opt"] is None else [fill(w, d) for w in OPTIONS[case["opt"]][0]]) + ERRORS[case["error"]]
    before = snapshot(d)
    status, out, err = run_main(argv, d)
    want = 2 if case["error"] in USAGE else 1
    expect_eq(status, want, f"exit status of {argv}")
    expect_eq(out, "", f"standard output of {argv}")
    expect(want == 1 and not case["error"].startswith("output") or err.strip() != "", f"no message for {argv}")
    expect_eq(snapshot(d), before, f"files after {argv}")
    if case.get("process"):
        p = start(argv, d)
        expect_eq((p.returncode, p.stdout), (want, ""), f"exit status and output of a process with {argv}")
        expect(p.stderr.strip() != "", "no error message")
    res.step(1)
    res.state([case["error"], case["opt"]])
    res.outcome = ["error", want]
