"""
Builds graphs in a process with another hash seed and directory listing order.

Reads requests as JSON lines on stdin, writes the canonical graphs to stdout.
"""

import json
import os
import subprocess
import sys
from itertools import permutations

from . import core, histories as H
from .util import canon, new_graph, reachable


def patch_listdir(reverse):
    orig = os.listdir

    def listdir(path="."):
        return sorted(orig(path), reverse=reverse)

    os.listdir = listdir


def full(mg, root):
    """canonical reachable graph including the global names of modules"""
    c = canon(mg, root)
    reach = {n.replace(root, "$") for n in reachable(mg)}
    c["nodes"] = {n: r for n, r in c["nodes"].items() if n in reach}
    c["edges"] = {e: a for e, a in c["edges"].items() if e.split(" -> ")[0] in reach}
    for n in mg.nodes():
        key = n.identifier.replace(root, "$")
        if key in c["nodes"]:
            for attr in ("globals_written", "globals_read"):
                v = getattr(n, attr, None)
                if v is not None:
                    c["nodes"][key][attr] = sorted(v)
            dist = getattr(n, "distribution", None)
            if dist is not None:
                c["nodes"][key]["dist"] = dist.identifier.replace(root, "$")
    c["dists"] = sorted(d.identifier.replace(root, "$") for d in mg.distributions())
    return c


def build(req, env):
    """{order: canonical graph} for one request"""
    out = {}
    root = req["root"]
    if "ops" in req:
        with env.case(extra_path=[root], subdirs=[]):
            mg = new_graph()
            for op in req["ops"]:
                H.perform(op, mg, root)
            out["-"] = full(mg, root)
        return out
    for perm in permutations(req["roots"]):
        with env.case(extra_path=[root], subdirs=[]):
            mg = new_graph()
            for m in perm:
                if m.startswith("@"):
                    mg.add_distribution(m[1:])
                else:
                    mg.add_module(m)
            out[" ".join(perm)] = full(mg, root)
            for k in list(sys.path_importer_cache):
                if k.startswith(root):
                    del sys.path_importer_cache[k]
    return out


class Helper:
    def __init__(self, seed, reverse):
        self.seed, self.reverse = seed, reverse
        self.proc = None

    def request(self, req):
        if self.proc is None:
            env = dict(os.environ, PYTHONHASHSEED=str(self.seed))
            self.proc = subprocess.Popen(
                [sys.executable, "-m", "mc.order_helper", "1" if self.reverse else "0"],
                stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                env=env, cwd=core.VERIF,
            )
        self.proc.stdin.write(json.dumps(req).encode() + b"\n")
        self.proc.stdin.flush()

    def result(self):
        line = self.proc.stdout.readline()
        if not line:
            raise RuntimeError("helper process died")
        res = json.loads(line)
        if "error" in res:
            raise RuntimeError(f"hash seed {self.seed}: {res['error']}")
        return res["result"]

    def close(self):
        if self.proc is not None:
            self.proc.kill()
            self.proc.wait()
            for f in (self.proc.stdin, self.proc.stdout):
                try:
                    f.close()
                except OSError:
                    pass
            self.proc = None


def main():
    out = os.dup(1)
    os.dup2(2, 1)
    patch_listdir(sys.argv[1] == "1")
    env = core.Env()
    try:
        for line in sys.stdin:
            try:
                res = {"result": build(json.loads(line), env)}
            except Exception as exc:
                res = {"error": f"{type(exc).__name__}: {exc}"}
            write_all(out, json.dumps(res).encode() + b"\n")
    finally:
        env.close()


def write_all(fd, data):
    while data:
        data = data[os.write(fd, data):]


if __name__ == "__main__":
    main()
