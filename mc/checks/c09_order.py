"""
C09: the graph does not depend on the order of anything.
"""
from itertools import product

from .. import histories as H
from .. import projects as P
from ..core import Result, expect
from ..order_helper import Helper, build
from ..util import diff_canon, parents, write_tree

PROPERTY = "C09"
TITLE = "the graph does not depend on the order of roots, hashing or directory listings"
ASSUMPTIONS = [
    "in projects with an import cycle the edges for re-exported modules ('from a import b' where a has 'import b') are not compared",
    "hash seeds are chosen such that all orders of the names in every from-list of the universe are realised",
]

#: hash seeds that realise every order of all pairs (quick) and triples of the names that are used
SEEDS = {"quick": [110, 107], "thorough": [110, 114, 24, 49, 62, 12, 11, 21]}


def BOUND(tier):
    return (
        "projects (see C04) with one statement in the root and one in one other file, all permutations of two and three roots; "
        f"two distributions with all assignments of {len(SHARED)} files to them, with the same or other names; API histories up to length {2 if tier == 'quick' else 3}; "
        f"each in processes with hash seeds 0 and {SEEDS[tier]}, with sorted and reversed directory listings; "
        "all graphs, including the global names and distributions of the nodes, are compared; state = canonical graph"
    )


def setup_env(env):
    H.setup(env)
    env.helpers = [Helper(s, k % 2) for k, s in enumerate(SEEDS[TIER])]


TIER = "quick"


def prepare(tier):
    global TIER
    TIER = tier


def cases(tier):
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for seq in product(H.OPS, repeat=n):
            yield {"ops": list(seq)}
    for own in product(range(4), repeat=len(SHARED)):
        for names in ("AB", "AA"):
            yield {"own": list(own), "names": names}
    others = [m for m in P.FILES if m != "r"]
    for s in P.ALPHA["r"]:
        for f in others:
            if tier == "quick" and f not in ("p", "a", "p.q") and not P.interesting(s):
                continue
            for t in P.ALPHA[f]:
                yield {"proj": {"r": [s], f: [t]}, "roots": ["r", f]}
    third = ["p.q.n"] if tier == "quick" else ["p.q.n", "p.m", "ns.k", "zz.y"]
    for s in P.ALPHA["r"]:
        if tier == "quick" and not P.interesting(s):
            continue
        for f in others:
            if tier == "quick" and f in ("a", "b", "p.b"):
                continue
            for t in P.ALPHA[f]:
                for g in third:
                    yield {"proj": {"r": [s], f: [t], "b": [s]}, "roots": ["r", f, g]}


#: files that are recorded by the first, the second, both or neither of two distributions
SHARED = ["m.py", "ns/__init__.py", "ns/x.py", "k.py"]


def write_shared(d, case):
    """two distributions in one directory that may have the same name and share files"""
    files = {"m.py": "import k\n", "ns/__init__.py": "", "ns/x.py": "import m\n", "k.py": ""}
    for i, (tag, name) in enumerate(zip(("A-1", "A-2") if case["names"] == "AA" else ("A-1", "B-1"), case["names"])):
        rec = "".join(f"{f},,\n" for f, o in zip(SHARED, case["own"]) if o >> i & 1)
        files[f"{tag}.dist-info/METADATA"] = f"Name: {name}\nVersion: {tag[2:]}\n"
        files[f"{tag}.dist-info/RECORD"] = rec
    write_tree(d, files)


def cyclic(uni):
    """modules that take part in import cycles"""
    succ = {}
    for m, sts in uni.mods.items():
        out = succ.setdefault(m, set())
        out.update(parents(m))
        for st in sts:
            b = uni.base(m, st)
            if b is None:
                continue
            out.add(b)
            out.update(parents(b))
            if st[0] == "from":
                out.update(f"{b}.{n}" for n, _ in st[3])
    for m in list(succ):
        todo, seen = [m], set()
        while todo:
            for y in succ.get(todo.pop(), ()):
                if y == m:
                    return True
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
    return False


def drop_reexports(c, uni):
    drop = set()
    for m, sts in uni.mods.items():
        for st in sts:
            b = uni.base(m, st)
            if st[0] == "from" and b is not None:
                for n, _ in st[3]:
                    for tgt in P.Reference.bound_modules(_Uni(uni), b, n):
                        drop.add(f"{m} -> {tgt}")
    c = dict(c)
    c["edges"] = {
        e: [a for a in attrs if not (e in drop and a[2])] for e, attrs in c["edges"].items()
    }
    c["edges"] = {e: a for e, a in c["edges"].items() if a}
    c["nodes"] = {n: {k: v for k, v in r.items() if k != "globals_written"} for n, r in c["nodes"].items()}
    return c


class _Uni:
    def __init__(self, uni):
        self.uni = uni

    def bound_modules(self, b, n, seen=frozenset()):
        return P.Reference.bound_modules(self, b, n, seen)


def run_case(case, env):
    res = Result()
    if "ops" in case:
        results, root, uni, loop = run(dict(case, root=env.program), env), env.program, None, False
    elif "own" in case:
        with env.case() as d:
            root, loop = d, False
            write_shared(d, case)
            results = run({"root": d, "roots": ["ns.x", "m", "@A"]}, env)
    else:
        mods = P.project(case["proj"])
        uni = P.Universe(mods)
        loop = cyclic(uni)
        with env.case() as d:
            root = d
            write_tree(d, P.tree(mods))
            results = run({"root": d, "roots": case["roots"]}, env)
    first = None
    for seed, graphs in results:
        for order, c in graphs.items():
            if loop:
                c = drop_reexports(c, uni)
            if first is None:
                first = (seed, order, c)
            elif c != first[2]:
                expect(False, f"the graph for roots [{order}] with hash seed {seed} differs from that for [{first[1]}] with seed {first[0]}: "
                              f"{diff_canon(c, first[2])} {c['dists']} {first[2]['dists']}")
            res.step()
    res.traces = sum(len(g) for _, g in results)
    res.state(first[2])
    res.outcome = [len(first[2]["nodes"]), loop]
    return res


def run(req, env):
    try:
        for h in env.helpers:
            h.request(req)
        out = [(0, build(req, env))]
        for h in env.helpers:
            out.append((h.seed, h.result()))
    except BaseException:
        for h in env.helpers:
            h.close()
        raise
    return out
