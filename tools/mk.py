"""mk(id, prop, [(file, old, new)...], demo, needs, breaks)"""
import os, subprocess, json, shutil
HELP = '''import contextlib, importlib, io, os, py_compile, shutil, sys, tempfile, zipfile
import modulegraph2 as M
assert os.path.realpath(M.__file__).startswith(os.path.realpath(os.getcwd()) + os.sep), M.__file__
D = tempfile.mkdtemp(prefix="mgdemo-")
import atexit
atexit.register(shutil.rmtree, D, ignore_errors=True)
sys.path.insert(0, D)

def write(files, root=D):
    for rel, text in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fp:
            fp.write(text if isinstance(text, bytes) else text.encode("utf-8"))

def cls(mg, name):
    n = mg.find_node(name)
    return None if n is None else type(n).__name__

def reach(mg):
    return {n.identifier for n in mg.iter_graph()}

def check(cond, msg):
    if not cond:
        print("DEMO FAILED:", msg)
        sys.exit(1)

'''
def mk(id, prop, edits, demo, needs, breaks):
    w = f"/tmp/sr/mk.{id}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for f, old, new in edits:
        p = f"{w}/modulegraph2/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    assert diff
    subprocess.check_call(["/opt/venv/bin/python", "-m", "black", "-q", "--check", w + "/modulegraph2"]) if 0 else None
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(HELP + demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
